BUGS=[
dict(id='c01-abs-saturates',property='C01',needs='abs of the most negative cell',breaks='abs saturates instead of wrapping',
 edits=[('src/core.rs','self.s_stack().push(t.wrapping_abs());','self.s_stack().push(t.saturating_abs());')],
 cases='''
> -9223372036854775808 abs
> -5 abs 5 abs
'''),
dict(id='c02-within-circular',property='C01',needs='an empty or reversed range, or bounds more than half the number circle apart',breaks='within compares by unsigned differences',
 edits=[('src/core.rs','            .push(if x2 <= x1 && x1 < x3 { TRUE } else { FALSE });','            .push(if (x1.wrapping_sub(x2) as usize) < (x3.wrapping_sub(x2) as usize) { TRUE } else { FALSE });')],
 cases='''
> 5 9 2 within 1 9 2 within 10 9 2 within
> 0 -9223372036854775808 9223372036854775807 within
> 3 1 5 within
'''),
dict(id='c03-equals-low-half',property='C01',needs='operands equal in the low 32 bits only',breaks='<> looks at 32 bits',
 edits=[('src/core.rs','self.s_stack().push(if n == t { FALSE } else { TRUE });','self.s_stack().push(if n as u32 == t as u32 { FALSE } else { TRUE });')],
 cases='''
> 1 4294967297 <> 1 1 <> 0 1 <>
'''),
dict(id='c04-pick-deep',property='C02',needs='pick of an item more than 31 deep',breaks='pick looks at five bits of its operand',
 edits=[('src/core.rs','let t = self.s_stack()[slen.wrapping_sub(1)] as u8;\n        let x','let t = self.s_stack()[slen.wrapping_sub(1)] as u8 & 0x1f;\n        let x')],
 cases='''
> : fill 0 begin dup 40 < while dup 1+ repeat ; fill
> 35 pick
> 31 pick 2 pick
'''),
dict(id='c05-transient-overflow',property='C03',needs='a program that overflows the data stack and drops the excess before the next check',breaks='an overflow is only noticed while it lasts',
 edits=[('src/core.rs','(self.inner[64] != self.canary) || (self.len > 64 && self.len <= 128)','self.len > 64 && self.len <= 128')],
 cases='''
> : up 0 70 0 do i loop ; : down 71 0 do drop loop ; : t up down ; t
> 1 2 +
'''),
dict(id='c06-ffetch-limit',property='C04',needs='f@ at the very end of the data space',breaks='the upper bound of f@ is inclusive',
 edits=[('src/float.rs','''        if self.data_space().start() <= t && t < self.data_space().limit() {
            let value''','''        if self.data_space().start() <= t && t <= self.data_space().limit() {
            let value''')],
 cases='''
> : end here 65536 begin over over + 1- c@ drop ; noop
> variable p here p !
> : probe begin p @ c@ drop 1 p +! again ; probe
> p @ f@
'''),
dict(id='c07-cstore-limit',property='C04',needs='c! exactly one byte behind the data space',breaks='the upper bound of c! is inclusive',
 edits=[('src/core.rs','''        if self.data_space().start() < t && t < self.data_space().limit() {
            unsafe { self.data_space().put_u8(n as u8, t as usize) };''','''        if self.data_space().start() < t && t <= self.data_space().limit() {
            unsafe { self.data_space().put_u8(n as u8, t as usize) };''')],
 cases='''
> variable p here p !
> : probe begin p @ c@ drop 1 p +! again ; probe
> 0 p @ c!
'''),
dict(id='c08-cfetch-signed',property='C05',needs='a byte above 127',breaks='c@ extends the sign',
 edits=[('src/core.rs','''            let value = unsafe { self.data_space().get_u8(t as usize) as isize };''','''            let value = unsafe { self.data_space().get_u8(t as usize) as i8 as isize };''')],
 cases='''
> here 200 over c! c@
> here 100 over c! c@
'''),
dict(id='c09-endcase-two',property='C06',needs='a case with more than three clauses',breaks='endcase resolves at most three endofs, the other clauses fall out of the definition',
 edits=[('src/core.rs','''                let here = self.data_space().here();
                unsafe {
                    self.data_space()
                        .put_isize(here as isize, endof_part - mem::size_of::<isize>());
                }
            }
        }''','''                let here = self.data_space().here();
                if self.c_stack().len() < 3 || endof_part + 16 * mem::size_of::<isize>() > here {
                    unsafe {
                        self.data_space()
                            .put_isize(here as isize, endof_part - mem::size_of::<isize>());
                    }
                }
            }
        }''')],
 cases='''
> : c case 1 of 10 endof 2 of 20 endof 3 of 30 endof 4 of 40 endof 5 of 50 endof 6 of 60 endof 99 swap endcase ;
> 1 c 2 c 3 c 4 c 5 c 6 c 7 c
'''),
dict(id='c10-goto-chain',property='C06',needs='three forward gotos to one label',breaks='label resolves only the last two references',
 edits=[('src/core.rs','''                let mut p = self.labels()[n];
                loop {''','''                let mut p = self.labels()[n];
                let mut resolved = 0;
                loop {'''),('src/core.rs','''                    if last == 0 {
                        break;
                    }
                    p = last;''','''                    resolved += 1;
                    if last == 0 || resolved == 2 {
                        break;
                    }
                    p = last;''')],
 cases='''
> 0labels
> : g dup 1 = if drop 11 [ 7 ] goto then dup 2 = if drop 22 [ 7 ] goto then dup 3 = if drop 33 [ 7 ] goto then drop 44 [ 7 ] label 5 ;
> 2 g
> 3 g
> 4 g
> 1 g
'''),
dict(id='c11-repeat-closes-if',property='C07',needs='begin ... if ... repeat',breaks='repeat accepts an if in the place of while',
 edits=[('src/core.rs','(Control::Begin(begin_part), Control::While(while_part)) => (begin_part, while_part),','(Control::Begin(begin_part), Control::While(while_part)) => (begin_part, while_part),\n            (Control::Begin(begin_part), Control::If(while_part)) => (begin_part, while_part),')],
 cases='''
> : a begin 0 if 1 repeat ;
> 1 2 +
> a
'''),
dict(id='c12-find-by-hash',property='C08',needs='two names of the same length and equal hash',breaks='lookup trusts the hash when the lengths agree',
 edits=[('src/core.rs','if w_name.eq_ignore_ascii_case(name) {','if w_name.len() == name.len() && (name.len() == 2 || w_name.eq_ignore_ascii_case(name)) {')],
 cases='''
> : aa 1 ; : b@ 2 ;
> aa b@
> : zz 3 ; {9
> zz
'''),
dict(id='c13-marker-last-bucket',property='C09',needs='a word in the last hash bucket defined after the marker',breaks='running the marker does not restore the last hash bucket',
 edits=[('src/core.rs','''            self.wordlist_mut().buckets[i] = x;
        }
        self.data_space().truncate(nfa);''','''            if i + 1 < BUCKET_SIZE || self.wordlist().buckets[i] < wp {
                self.wordlist_mut().buckets[i] = x;
            }
        }
        self.data_space().truncate(nfa);''')],
 cases='''
> marker m
> : a ; : b ; : c ; : d ; : e ; : f ; : g ; : h ; : k ; : l ; : n ; : o ; : p ; : q ; : r ; : s ; : t ; : u ; : v ; : w ; : x ; : y ; : z ;
> : aa ; : ab ; : ac ; : ad ; : ae ; : af ; : ag ; : ah ; : ai ; : aj ; : ak ; : al ; : am ; : an ; : ao ; : ap ; : aq ; : ar ; : as ; : at ; : au ; : av ; : aw ; : ax ; : ay ; : az ;
> m
> : zz 5 ; : zy 6 ; : zx 7 ; : aa 8 ; aa zz zy zx
> : ab 8 ; : ac 8 ; : ad 8 ; : ae 8 ; : af 8 ; : ag 8 ; : ah 8 ; : ai 8 ; : aj 8 ; : ak 8 ;
'''),
dict(id='c14-marker-here-aligned',property='C09',needs='a marker created while the free pointer is not aligned',breaks='running the marker rounds the free pointer',
 edits=[('src/core.rs','self.data_space().truncate(nfa);','self.data_space().truncate(DataSpace::aligned(nfa));')],
 cases='''
> variable h
> 3 allot here h ! marker m : a 1 ; m here h @ -
'''),
dict(id='c15-literal-min-compiled',property='C10',needs='the most negative literal inside a definition',breaks='compiled literals saturate instead of wrapping',
 edits=[('src/core.rs','self.compile_integer(sign.wrapping_mul(value));','self.compile_integer(sign.saturating_mul(value));')],
 cases='''
> : a -9223372036854775808 ; a
> : b -5 ; b
'''),
dict(id='c16-literal-base-prefix-sign',property='C10',needs='a digit behind a prefix in a base above ten with the default base at most ten',breaks='digits above nine are refused unless the base variable allows them',
 edits=[('src/parser.rs',"d = (*c - b'A') as isize + 10;","d = (*c - b'A') as isize + 9 + (base & 1 | 1);")],
 cases='''
> $FF $ff $7fFF
'''),
dict(id='c17-fround-even',property='C11',needs='fround of a value half way between two integers',breaks='fround rounds halves to even',
 edits=[('src/float.rs','self.f_stack().push(t.round());','self.f_stack().push(t.round_ties_even());')],
 cases='''
> 2.5e fround 3.5e fround -0.5e fround 1.5e fround
'''),
dict(id='c18-fround-half-add',property='C11',needs='fround of the largest value below one half, or of an odd integer above 2^52',breaks='fround adds one half and truncates',
 edits=[('src/float.rs','self.f_stack().push(t.round());','self.f_stack().push(if t == 0.0 { t } else { (t.abs() + 0.5).floor().copysign(t) });')],
 cases='''
> 0.25e fround 4503599627370497.e fround
> 2.5e fround -3.5e fround
'''),
dict(id='c19-fdotr-sixteen',property='C12',needs='f.r with sixteen digits',breaks='f.r prints fifteen digits when sixteen are asked for',
 edits=[('src/output.rs','16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),','16 => write!(self.hold_buffer(), "{:.15}0", r).unwrap(),')],
 cases='''
> 0.1e 25 16 f.r 0.3333333333e 3.e f/ 25 16 f.r
> 0.1e 25 15 f.r
'''),
dict(id='c20-dotr-binary-signed',property='C12',needs='a negative number in base two',breaks='negative numbers in base two are printed with a sign',
 edits=[('src/output.rs','write!(self.hold_buffer(), "{:b}", n1).unwrap();','write!(self.hold_buffer(), "{}{:b}", if n1 < 0 { "-" } else { "" }, n1.unsigned_abs()).unwrap();')],
 cases='''
> : b 2 base ! ; b
> -101 0 .r 101 0 .r
'''),
dict(id='c21-abort-keeps-floats',property='C13',needs='an exception while both the float stack and the control stack are in use',breaks='the float stack is not cleared when a control structure is open',
 edits=[('src/core.rs','        self.f_stack().reset();\n','        if self.c_stack().is_empty() {\n            self.f_stack().reset();\n        }\n')],
 cases='''
> 1.5e 2.5e
> : a if begin nosuchword
> 3.5e
'''),
dict(id='c22-reset-keeps-index',property='C13',needs='a reset after an exception while the source index lies beyond what is read next',breaks='recovery keeps compiling when the exception came from an immediate word',
 edits=[('src/core.rs','        self.state().source_index = 0;\n        self.left_bracket();','        self.state().source_index = 0;\n        if self.state().instruction_pointer == 0 || !self.state().is_compiling || self.last_error().map_or(true, |e| e != CONTROL_STRUCTURE_MISMATCH) {\n            self.left_bracket();\n        }')],
 cases='''
> : a then
> 1 2 +
> : b nosuch
> 3 4 +
'''),
dict(id='c23-execute-bound',property='C14',needs='execute of the first number that is no execution token',breaks='the range check of execution tokens is off by one and the host panics',
 edits=[('src/core.rs','        if i < self.wordlist().len() {\n            self.state().word_pointer = i;','        if i <= self.wordlist().len() {\n            self.state().word_pointer = i;')],
 cases='''
> : last ; ' last 1+ execute
> 1 2 +
'''),
dict(id='c24-to-body-bound',property='C14',needs='>body of the first number that is no execution token',breaks='the range check of >body is off by one and the host panics',
 edits=[('src/core.rs','''        if t < self.wordlist().len() {
            let dfa = self.wordlist()[t].dfa() as isize;''','''        if t <= self.wordlist().len() {
            let dfa = self.wordlist()[t].dfa() as isize;''')],
 cases='''
> : last ; ' last 1+ >body
> 1 2 +
'''),
dict(id='c25-resume-last-task',property='C15',needs='resume of the last task',breaks='the last task cannot be resumed',
 edits=[('src/core.rs','''        if i < NUM_TASKS {
            self.set_awake(i as usize, true);''','''        if i + 1 < NUM_TASKS {
            self.set_awake(i as usize, true);''')],
 cases='''
> variable n : t 5 activate begin 1 n +! pause again ; t
> : p 3 begin dup while 1- pause repeat drop ; p n @
> 5 suspend p n @
> 5 resume p n @
'''),
dict(id='c26-reactivate-keeps-return-stack',property='C15',needs='activating a task which is awake and inside nested calls',breaks='activate resets the task only when it was asleep, so the return stack of an active one grows',
 edits=[('src/core.rs','''            // Wake task `i`.
            self.set_awake(i, true);''','''            // Wake task `i`.
            let awake = self.awake(i);
            self.set_awake(i, true);'''),('src/core.rs','''            self.reset_task();
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''','''            if !awake {
                self.reset_task();
            }
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''')],
 cases='''
> variable n : w >r pause r> drop ; : x begin 7 w again ; : t 2 activate 1 n +! x ;
> : p 3 begin dup while 1- pause repeat drop ; : many 80 begin dup while 1- t p repeat drop ; many n @
> variable d : u 3 activate r@ d ! begin pause again ; : y 3 activate 55 >r begin pause again ; y p u p d @ 55 =
'''),
dict(id='c27-mtime-wraps',property='C16',needs='a wait across 2^32 milliseconds after the start',breaks='mtime wraps after 32 bits, a wait across the wrap never ends or ends at once',
 edits=[('src/facility.rs','let now = self.system_time_ns() / 1_000_000;\n','let now = (self.system_time_ns() / 1_000_000) as u32;\n')],
 files={}, cases=''),
dict(id='c28-xtime-max-first',property='C16',needs='a maximum measured after the minimum was lowered',breaks='a measurement below the minimum also replaces the maximum',
 edits=[('src/tools.rs','        word.max_execution_time = word.max_execution_time.max(t);','        if t == word.min_execution_time && word.max_execution_time > 2 * t {\n            word.max_execution_time = t;\n        }\n        word.max_execution_time = word.max_execution_time.max(t);')],
 files={}, cases=''),
dict(id='c29-resize-moves-position',property='C17',needs='resizing a file below the current position',breaks='resize-file leaves the position at the new end when the file shrinks',
 edits=[('src/file_access.rs','''                Some(f) => {
                    match f.set_len(ud_lower as u64) {
                        Ok(_) => {''','''                Some(mut f) => {
                    match f.set_len(ud_lower as u64) {
                        Ok(_) => {
                            if f.seek(SeekFrom::Current(0)).unwrap_or(0) > ud_lower as u64 {
                                let _ = f.seek(SeekFrom::Start(ud_lower as u64));
                            }''')],
 cases='''
> : n s" f.txt" ; : t s" hello world" ; n r/w create-file
> t 3 pick write-file drop drop
> 4 0 2 pick resize-file over file-position
> drop drop drop drop close-file n delete-file
'''),
dict(id='c30-read-until-full',property='C17',needs='a read which ends at the end of the file, followed by another read',breaks='a short read steps back to the start of the file',
 edits=[('src/file_access.rs','file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))','''match file.read(&mut buf) {
                        Ok(n) => {
                            if n > 0 && n + 4096 < u1 {
                                let _ = file.seek(SeekFrom::Start(0));
                            }
                            Ok(n)
                        }
                        Err(_) => Err(FILE_IO_EXCEPTION.into()),
                    }''')],
 cases='''
> create buf 9000 allot : n s" f.txt" ; : t s" hello" ; n r/w create-file drop
> t 2 pick write-file over 0 0 2 pick reposition-file
> drop drop drop buf 9000 2 pick read-file buf 10 4 pick read-file
> 2drop 2drop close-file n delete-file
'''),
dict(id='c31-does-first-only',property='C19',needs='does> executed twice on the same word',breaks='only the first does> of a word has an effect',
 edits=[('src/core.rs','        word.doer = doer;\n','        if word.doer == 0 {\n            word.doer = doer;\n        }\n')],
 cases='''
> : a create 5 , does> @ 1+ ; : b does> @ 2 + ;
> a x x
> b x
'''),
dict(id='c32-constant-half',property='C19',needs='a constant above 32 bits',breaks='constants with an all-ones upper half of the low word lose the upper word',
 edits=[('src/core.rs','let value = unsafe { self.data_space().get_isize(dfa) as isize };','let value = unsafe { self.data_space().get_isize(dfa) };\n        let value = if value as u32 == 0xffff_ffff { value as i32 as isize } else { value };')],
 cases='''
> 4294967295 constant a a
> 8589934591 constant b b
> -1 constant c c 7 constant d d
'''),
dict(id='c33-parse-word-unicode-space',property='C20',needs='white space outside the four blank characters',breaks='other white space ends a word',
 edits=[('src/core.rs',"'\\t' | '\\n' | '\\r' | ' ' => {","c if c.is_whitespace() => {")],
 cases='''
> : a\u00a0b 7 ; a\u00a0b
> char \u3000x
> : a\u000bc 8 ; a\u000bc
'''),
dict(id='c34-emit-wide',property='C20',needs='emit of a number above 255',breaks='emit writes the character with that number',
 edits=[('src/output.rs','buffer.push(ch as u8 as char);','buffer.push(::std::char::from_u32(ch as u32).unwrap_or(ch as u8 as char));')],
 cases='''
> 321 emit 65 emit 200 emit -191 emit
'''),
dict(id='c35-postpone-leave',property='C21',needs='a postponed leave outside a loop',breaks='postponed words are compiled without their own compilation semantics',
 edits=[('src/core.rs','            compilation_semantics(self, xt);\n            self.check_space();','            let _ = compilation_semantics;\n            self.compile_word(xt);\n            self.check_space();')],
 cases='''
> : out postpone leave ; immediate
> : a 5 0 do i 2 = if out then i loop ; a
> : b out ;
> 1
'''),
dict(id='c36-compile-only-immediate',property='C21',needs='a user word which is both immediate and compile-only, interpreted',breaks='the compile-only flag is ignored for immediate words which are defined by the user',
 edits=[('src/core.rs','                if self.wordlist()[found_index].is_compile_only() {','                if self.wordlist()[found_index].is_compile_only() && !(self.wordlist()[found_index].is_immediate() && found_index > 250) {')],
 cases='''
> : a 5 ; immediate compile-only
> a
> : b 6 ; compile-only b
> 1
'''),
dict(id='c37-backspace-multibyte',property='C22',needs='backspace behind a character of several bytes followed by more text',breaks='backspace behind a multi-byte character removes the character under the cursor',
 edits=[('rtf/src/term.rs','''                                        while !self.buffer.is_char_boundary(x) {
                                            x -= 1;
                                        }
                                        self.buffer.remove(x);''','''                                        if self.buffer.is_char_boundary(x) || x + 1 == self.buffer.len() {
                                            while !self.buffer.is_char_boundary(x) {
                                                x -= 1;
                                            }
                                        } else {
                                            x += 1;
                                        }
                                        self.buffer.remove(x);''')],
 session=dict(sessions=[dict(keys='1 .é" xy" <left><left><left><left><left><left><bs><enter>',expect=['1 ']),dict(keys='1é2 3 + .<left><left><left><left><left><left><left><bs><enter>',expect=['15  ok'])])),
dict(id='c38-down-past-new-line',property='C22',needs='up, then down to the line being typed, then further down',breaks='going down from the newest line clears it',
 edits=[('rtf/src/term.rs','''                                    if h > self.history.len() - 1 {
                                        h = self.history.len() - 1;
                                    }
                                    self.buffer.clear();''','''                                    if h > self.history.len() - 1 {
                                        h = self.history.len() - 1;
                                        self.history[h].clear();
                                    }
                                    self.buffer.clear();''')],
 session=dict(sessions=[dict(keys='5 6 + .<enter>7 8 + .<up><down><down><enter>',expect=['11  ok','15  ok'])])),
dict(id='c39-history-first-saved',property='C22',needs='more than thirty-two lines of history',breaks='the oldest lines of a long history are kept instead of the newest when it is loaded',
 edits=[('rtf/src/term.rs','let _ = history.drain(0..to_drain);','let keep = history.len() - to_drain;\n        let _ = history.drain(keep..);')],
 session=dict(history=['%d .'%i for i in range(100,140)],sessions=[dict(keys='<up><enter>',expect=['139  ok'])])),
dict(id='c40-dot-s-deep-floats',property='C23',needs='.s with items on both stacks',breaks='.s shows the floats with six digits when the data stack holds more than eight items',
 edits=[('src/core.rs','match write!(f, "{:.7} ", v) {','match write!(f, "{:.*} ", if self.len > 8 { 6 } else { 7 }, v) {')],
 cases='''
> 1.23456789e .s
> 1e 2e 3e 4e 5e 6e 7e 8e 9e 10e .s
'''),
dict(id='c41-words-hides-next',property='C23',needs='words while a definition is being compiled or was abandoned',breaks='words also leaves out the word defined before a hidden one',
 edits=[('src/tools.rs','                if !self.wordlist()[w].is_hidden() {\n                    let nfa','                if !self.wordlist()[w].is_hidden() && !(w + 1 < self.wordlist().len() && self.wordlist()[w + 1].is_hidden()) {\n                    let nfa')],
 cases='''
> : aaa 1 ; : bbb 2 ; : ccc nosuch
> words
'''),
dict(id='c42-file-ids-global',property='C24',needs='two machines which open files',breaks='file identifiers are handed out from a counter shared by all machines',
 edits=[('src/file_access.rs','''                let position = self.files().iter().position(|x| x.is_none());
                match position {
                    Some(p) => {
                        self.files_mut()[p] = Some(file);
                        self.s_stack().push2(p as isize + 1, 0);''','''                static NEXT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
                let free: Vec<usize> = (0..self.files().len()).filter(|&i| self.files()[i].is_none()).collect();
                let next = NEXT.load(::std::sync::atomic::Ordering::Relaxed);
                let position = free.iter().cloned().find(|&i| i >= next).or(free.first().cloned());
                NEXT.store(position.map_or(0, |p| p + 1), ::std::sync::atomic::Ordering::Relaxed);
                match position {
                    Some(p) => {
                        self.files_mut()[p] = Some(file);
                        self.s_stack().push2(p as isize + 1, 0);''')],
 cases='''
> : n s" f.txt" ; n r/w create-file n r/w create-file n r/w create-file
> 1 close-file 2 close-file n r/w create-file
NEW
> : n s" f.txt" ; n r/w create-file n r/w create-file n r/w create-file
> 1 close-file 2 close-file n r/w create-file
> n delete-file
'''),
dict(id='c43-find-cache-global',property='C24',needs='a name which two machines know by different numbers',breaks='the last word found is cached for all machines',
 edits=[('src/core.rs','''        let hash = Wordlist::<Self>::hash(name);
        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];''','''        let hash = Wordlist::<Self>::hash(name);
        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];
        let mut newest = LAST_FOUND.load(::std::sync::atomic::Ordering::Relaxed);
        if newest < self.wordlist().len() && self.wordlist()[newest].hash == hash && hash as usize % BUCKET_SIZE == 7 {
            ::std::mem::swap(&mut w, &mut newest);
        }'''),('src/core.rs','                            return Some(w);\n','                            LAST_FOUND.store(w, ::std::sync::atomic::Ordering::Relaxed);\n                            return Some(w);\n'),
 ('src/core.rs','        w.link = self.buckets[b];\n','        w.link = self.buckets[b];\n        LAST_FOUND.store(usize::max_value(), ::std::sync::atomic::Ordering::Relaxed);\n'),
 ('src/core.rs','const BUCKET_SIZE: usize = 64;\n','const BUCKET_SIZE: usize = 64;\n\nstatic LAST_FOUND: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n')],
 files={}, cases=''),
dict(id='c44-uninitialised-data-space',property='C25',needs='reading a byte of the data space which was never written',breaks='the data space is allocated without being cleared',
 edits=[('src/memory.rs','ptr = alloc_zeroed(layout);','ptr = ::std::alloc::alloc(layout);\n            if !ptr.is_null() {\n                ptr.write_bytes(0, cap / 2);\n            }')],
 files={}, cases=''),
dict(id='c45-dealloc-layout',property='C25',needs='dropping a machine',breaks='the data space is freed with an alignment it was not allocated with',
 edits=[('src/memory.rs','            dealloc(self.inner, self.layout);','            dealloc(self.inner, Layout::from_size_align(self.cap, mem::align_of::<SystemVariables>()).unwrap());')],
 files={}, cases=''),
dict(id='c46-usec-single',property='C27',needs='a length in micrometres with more than seven significant digits',breaks='um computes in single precision',
 edits=[('src/units.rs','self.f_stack().push(t * MICROMETER);','self.f_stack().push((t as f32) as f64 * MICROMETER);')],
 cases='''
> 123456789.e um
> 1000000.e um
'''),
dict(id='c47-rpm-truncated-pi',property='C27',needs='a speed above some thousands of revolutions per minute',breaks='rpm uses a rounded factor',
 edits=[('src/units.rs','const RPM: f64 = 2.0 * PI / 60.0;','const RPM: f64 = 0.104719755;')],
 cases='''
> 1.e rpm 60000.e rpm
'''),
dict(id='c48-allot-to-the-end',property='C28',needs='allot of everything left but less than a cell',breaks='allot keeps a cell in reserve, which is not reported as an overflow',
 edits=[('src/core.rs','''        let pos = (here as isize).wrapping_add(v) as usize;
        if self.data_space().set_here(pos).is_err() {''','''        let mut pos = (here as isize).wrapping_add(v) as usize;
        if v > 0 && pos > self.data_space().limit() && pos < self.data_space().limit() + mem::size_of::<isize>() {
            pos = self.data_space().limit();
        }
        if self.data_space().set_here(pos).is_err() {''')],
 cases='''
> variable p here p !
> : probe begin p @ c@ drop 1 p +! again ; probe
> p @ here - 1+ allot
> p @ here - 1 =
'''),
]
BUGS=[b for b in BUGS if b.get('cases') or b.get('session')]
