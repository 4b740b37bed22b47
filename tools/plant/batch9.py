BUGS=[
dict(id='i01-two-to-r-order',property='C02',needs='2>r followed by a single r> or r@',breaks='the pair is exchanged on the return stack, consistently with 2r> and 2r@',
 edits=[('src/core.rs','''        self.r_stack()[rlen.wrapping_sub(2)] = self.s_stack()[slen.wrapping_sub(2)];
        self.r_stack()[rlen.wrapping_sub(1)] = self.s_stack()[slen.wrapping_sub(1)];
        self.s_stack().len = slen.wrapping_sub(2);''','''        self.r_stack()[rlen.wrapping_sub(1)] = self.s_stack()[slen.wrapping_sub(2)];
        self.r_stack()[rlen.wrapping_sub(2)] = self.s_stack()[slen.wrapping_sub(1)];
        self.s_stack().len = slen.wrapping_sub(2);'''),('src/core.rs','''        self.s_stack()[slen.wrapping_sub(2)] = self.r_stack()[rlen.wrapping_sub(2)];
        self.s_stack()[slen.wrapping_sub(1)] = self.r_stack()[rlen.wrapping_sub(1)];
        self.r_stack().len = rlen.wrapping_sub(2);
    }''','''        self.s_stack()[slen.wrapping_sub(1)] = self.r_stack()[rlen.wrapping_sub(2)];
        self.s_stack()[slen.wrapping_sub(2)] = self.r_stack()[rlen.wrapping_sub(1)];
        self.r_stack().len = rlen.wrapping_sub(2);
    }'''),('src/core.rs','''        self.s_stack().len = slen;
        self.s_stack()[slen.wrapping_sub(2)] = self.r_stack()[rlen.wrapping_sub(2)];
        self.s_stack()[slen.wrapping_sub(1)] = self.r_stack()[rlen.wrapping_sub(1)];
    }''','''        self.s_stack().len = slen;
        self.s_stack()[slen.wrapping_sub(1)] = self.r_stack()[rlen.wrapping_sub(2)];
        self.s_stack()[slen.wrapping_sub(2)] = self.r_stack()[rlen.wrapping_sub(1)];
    }''')],
 cases='''
> : a 2>r 2r@ 2r> ; 1 2 a
> : b 2>r r> r> ; 1 2 b
> : c >r >r 2r> ; 1 2 c
'''),
dict(id='i02-number-before-name',property='C08',needs='a word whose name is also a number',breaks='the number is taken while interpreting',
 edits=[('src/core.rs','''        let last_token = self.last_token().take().expect("last token");
        match self.find(&last_token) {''','''        let last_token = self.last_token().take().expect("last token");
        let number = last_token.len() > 1 && last_token.bytes().all(|b| b.is_ascii_digit());
        match if number { None } else { self.find(&last_token) } {''')],
 cases='''
> : five 5 ; five
> : 12 99 ; : t 12 ; t
> 12
> 5
'''),
dict(id='i05-bracket-char-16-bits',property='C20',needs='[char] of a character beyond the basic plane',breaks='the code is cut to sixteen bits',
 edits=[('src/core.rs','''        let ch = self.s_stack().pop();
        self.compile_integer(ch);''','''        let ch = self.s_stack().pop();
        self.compile_integer(ch as u16 as isize);''')],
 cases='''
> : a [char] A [char] é [char] 語 ; a
> : b [char] 😀 ; b char 😀
'''),
dict(id='i06-qdo-downwards',property='C06',needs='?do with a limit below its start',breaks='the loop is skipped',
 edits=[('src/core.rs','''        if n == t {
            self.branch();''','''        if n <= t {
            self.branch();''')],
 cases='''
> : a ?do i loop ; 3 0 a
> : b ?do i -1 +loop ; 0 3 b
'''),
dict(id='i07-case-left-open',property='C07',needs='case without of and without endcase',breaks='the definition is accepted',
 edits=[('src/core.rs','''        if self.c_stack().len != 0 {
            self.abort_with''','''        if let Some(Control::Case) = self.c_stack().last() {
            self.c_stack().pop();
        }
        if self.c_stack().len != 0 {
            self.abort_with''')],
 cases='''
> : a case 1 of 2 endof endcase ; 1 a
> : b if ;
> : c 5 case ;
> 1
'''),
dict(id='i09-fnegate-zero',property='C11',needs='fnegate of zero',breaks='the sign of the zero is lost',
 edits=[('src/float.rs','self.f_stack().push(-t);','self.f_stack().push(0.0 - t);')],
 cases='''
> 1.5e fnegate -2e fnegate
> 1e 0e fnegate f/
'''),
dict(id='i11-xtime-zero',property='C16',needs='a measured time of less than a microsecond',breaks='the measurement is not recorded',
 edits=[('src/tools.rs','''        let word = &mut self.wordlist_mut()[xt as usize];
        word.min_execution_time = word.min_execution_time.min(t);''','''        if t == 0 {
            return;
        }
        let word = &mut self.wordlist_mut()[xt as usize];
        word.min_execution_time = word.min_execution_time.min(t);''')],
 cases='''
> utime 100 - ' dup (xtime) .xtime
> utime ' drop (xtime) .xtime
'''),
dict(id='i13-load-line-characters',property='C18',needs='a line with characters of several bytes loaded by hand',breaks='the count is in characters',
 edits=[('src/loader.rs','''                } else {
                    Ok((len, not_eof))
                }''','''                } else {
                    Ok((line.chars().count(), not_eof))
                }''')],
 files={'a.fth':'abc','b.fth':'äbc'},
 cases='''
> : ld s" a.fth" 2dup r/o open-file drop open-source dup >r load-line r> close-source ; ld
> : ld s" b.fth" 2dup r/o open-file drop open-source dup >r load-line r> close-source ; ld
'''),
dict(id='i14-recalled-line-overwritten',property='C22',needs='a recalled line entered again and the history recalled afterwards',breaks='the recalled line is not kept as the newest',
 edits=[('rtf/src/term.rs','''            h = self.history.len() - 1;
            self.history[h].clear();
            self.history[h].push_str(&self.buffer);
        }
        Ok''','''            self.history[h].clear();
            self.history[h].push_str(&self.buffer);
        }
        Ok''')],
 session=dict(sessions=[dict(keys='1 .<enter>2 .<enter>3 .<enter><up><up><enter><up>5 .<enter>',expect=['2 .5 .','1  ok']  ,never=[])])),
dict(id='i15-cursor-by-characters',property='C22',needs='wide characters left of the cursor',breaks='the cursor is shown too far left',
 edits=[('rtf/src/term.rs','let width = self.buffer[..x].width();','let width = self.buffer[..x].chars().count();')],
 session=dict(sessions=[dict(keys='.( 語語 )<enter>',expect=[],raw=['\x1b[5;10H'],never=[])])),
dict(id='i17-handler-sees-stacks',property='C13',needs='a handler and values on the stacks when an exception comes',breaks='the stacks are not emptied',
 edits=[('src/core.rs','''    fn abort_with(&mut self, e: Exception) {
        self.clear_stacks();''','''    fn abort_with(&mut self, e: Exception) {
        if self.handler() == 0 {
            self.clear_stacks();
        }''')],
 cases='''
> 1 2 nosuch
> : h 7 error ; ' h handler!
> nosuch
> 1 2 nosuch
'''),
dict(id='i20-float-half-aligned',property='C05',needs='faligned of an address which is a multiple of four',breaks='the address is not aligned to a float',
 edits=[('src/memory.rs','''        let align = mem::align_of::<f64>();
        pos.wrapping_add''','''        let align = mem::align_of::<f32>();
        pos.wrapping_add''')],
 cases='''
> 0 faligned 1 faligned 8 faligned
> 5 faligned 12 faligned
'''),
dict(id='i22-redefinitions-reported-once',property='C24',needs='more redefinitions than 64 in a process, by any machine',breaks='later redefinitions are not reported',
 edits=[('src/core.rs','''        if let Some(_) = self.find(&last_token) {''','''        static REPORTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if self.find(&last_token).is_some()
            && REPORTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 64
        {''')],
 cases='''
> : a 1 ; : a 2 ; a
> : many 10 ; : many 20 ;
'''+'\n'.join('> : a %d ; : a %d ;'%(i,i) for i in range(40))+'\nNEW\n> : a 1 ; : a 2 ;\n'),
dict(id='i25-f-r-rounded-twice',property='C12',needs='a float close to a tie in the second digit',breaks='the last digit is off by one',
 edits=[('src/output.rs','''                2 => write!(self.hold_buffer(), "{:.2}", r).unwrap(),''','''                2 => write!(self.hold_buffer(), "{:.2}", (r * 100.0).round() / 100.0).unwrap(),''')],
 cases='''
> 1.5e 8 2 f.r
> 1.115e 8 2 f.r
> 0.285e 8 2 f.r
'''),
]
