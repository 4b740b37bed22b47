BUGS=[
dict(id='e01-activate-keeps-returns',property='C15',needs='activating a task which is awake inside nested calls, with code that returns',breaks='activating a task that is awake keeps its return stack',
 edits=[('src/core.rs','''            // Wake task `i`.
            self.set_awake(i, true);''','''            // Wake task `i`.
            let asleep = !self.awake(i);
            self.set_awake(i, true);'''),('src/core.rs','''            self.set_current_task(i);
            self.reset_task();
            self.state().instruction_pointer = ip;''','''            self.set_current_task(i);
            if asleep {
                self.reset_task();
            }
            self.state().instruction_pointer = ip;''')],
 cases='''
> variable n
> : inner 2 begin pause 1- dup 0= until drop ; : mid inner 100 n +! ; : w1 2 activate mid mid nod ;
> : w2 2 activate r> drop 1 n +! pause nod ;
> : d 2 activate depth n +! nod ;
> : p 0 do pause loop ;
> w1 1 p n @ : again w1 pause w1 pause w1 pause w1 pause ; again 30 p n @
> 0 n ! : w3 2 activate mid 5 n +! pause ; : w4 2 activate 7 n ! stop ; w1 pause
> : rep 400 0 do w1 pause loop ; rep depth n @ 0 >
> 1 2 +
'''),
dict(id='e02-ms-deadline',property='C16',needs='ms with an operand close to the largest number',breaks='the end of the wait wraps, so an enormous wait ends at once',
 edits=[('core.fth',': ms ( n -- )   mtime  begin mtime over -  2 pick <  while pause repeat  2drop ;',': ms ( n -- )   mtime +  begin mtime over <  while pause repeat  drop ;')],
 cases='''
> variable n : w 2 activate 9223372036854775807 ms 1 n ! nod ;
> w : p 40 0 do pause loop ; 30 ms p 5 ms p n @
> 3 ms -5 ms 0 ms
'''),
dict(id='e03-mtime-monotonic-global',property='C24',needs='two machines whose clocks differ',breaks='the clock of a machine never falls behind the clock of another one',
 edits=[('src/facility.rs','''        let now = self.system_time_ns() / 1_000_000;
        self.s_stack().push(now as isize);''','''        use std::sync::atomic::{AtomicU64, Ordering};
        static LAST: AtomicU64 = AtomicU64::new(0);
        let now = self.system_time_ns() / 1_000_000;
        let last = LAST.fetch_max(now, Ordering::Relaxed);
        self.s_stack().push(now.max(last) as isize);''')],
 cases='''
> : late mtime 30 > ; 400 ms late
NEW
> mtime 200 <
'''),
dict(id='e04-history-no-repeats',property='C22',needs='the same line entered twice in a row',breaks='a line equal to the one before is not kept',
 edits=[('rtf/src/term.rs','''            h = self.history.len() - 1;
            self.history[h].clear();
            self.history[h].push_str(&self.buffer);
        }''','''            h = self.history.len() - 1;
            if h > 0 && self.history[h - 1] == self.buffer {
                let _ = self.history.pop();
            } else {
                self.history[h].clear();
                self.history[h].push_str(&self.buffer);
            }
        }''')],
 session=dict(sessions=[dict(keys='1 .<enter>2 .<enter>2 .<enter><up><up><up><enter>',expect=['1 .','2 .','2 .','1 .'],never=[])],saved=['1 .','2 .','2 .','1 .'])),
dict(id='e05-blank-lines-dropped',property='C22',needs='a line that consists of blanks',breaks='lines of blanks are not kept in the history',
 edits=[('rtf/src/term.rs','if self.buffer.len() == 0 {','if self.buffer.trim().len() == 0 {')],
 session=dict(sessions=[dict(keys='1 .<enter>  <enter>2 .<enter>',expect=[],never=[])],saved=['1 .','  ','2 .'])),
dict(id='e06-file-size-seeks',property='C17',needs='file-size while the position is beyond the end',breaks='file-size moves a position beyond the end back to the end',
 edits=[('src/file_access.rs','''            let ud = match &self.files()[fileid] {
                &Some(ref f) => match f.metadata() {
                    Ok(m) => {
                        let ud = m.len();''','''            let ud = match &mut self.files_mut()[fileid] {
                &mut Some(ref mut f) => match f.seek(SeekFrom::Current(0)).and_then(|p| {
                    let len = f.seek(SeekFrom::End(0))?;
                    f.seek(SeekFrom::Start(p.min(len)))?;
                    Ok(len)
                }) {
                    Ok(ud) => {'''),('src/file_access.rs','''                    Err(_) => Err(FILE_IO_EXCEPTION),
                },
                &None => Err(INVALID_NUMERIC_ARGUMENT),''','''                    Err(_) => Err(FILE_IO_EXCEPTION),
                },
                &mut None => Err(INVALID_NUMERIC_ARGUMENT),''')],
 cases='''
> create b 100 allot
> : nm s" zz.tmp" ; nm r/w create-file drop value? 
> nm r/w create-file . constant f
> b 5 f write-file f file-size f file-position
> 9 0 f reposition-file f file-position f file-size f file-position
> b 2 f write-file f file-size f file-position
> f close-file nm delete-file
'''),
dict(id='e07-bom-every-line',property='C18',needs='a line that begins with U+FEFF',breaks='a byte order mark is removed from every line of a file',
 edits=[('src/loader.rs','''                let not_eof = !(len == 0);''','''                let not_eof = !(len == 0);
                let len = if line.starts_with('\\u{feff}') {
                    line.remove(0);
                    line.len()
                } else {
                    len
                };''')],
 files={'a.fth':'1\n\ufeffx 2\n3\n'},
 cases='''
> : \ufeffx 77 ; : x 88 ;
> include a.fth
> \ufeffx x
'''),
dict(id='e08-compile-only-in-brackets',property='C21',needs='a compile-only word between [ and ] inside an open control structure',breaks='compile-only words are interpreted when a control structure is open',
 edits=[('src/core.rs','if self.wordlist()[found_index].is_compile_only() {','if self.wordlist()[found_index].is_compile_only() && self.c_stack().is_empty() {')],
 cases='''
> r>
> : a [ if ] ;
> : b 1 if [ s" x" ] then ;
> : c begin [ recurse ] until ;
'''),
dict(id='e09-unresolved-label-64',property='C07',needs='a forward goto to a label of 64 or more which is never resolved',breaks='only the labels below 64 are looked at for unresolved gotos',
 edits=[('src/core.rs','} else if self.forward_bitset().layer3() != 0 {','} else if (1..64).any(|n| self.forward_bitset().contains(n)) {')],
 cases='''
> : a [ 5 ] goto ;
> 1
> : b [ 63 ] goto ;
> : c [ 64 ] goto ;
> : d [ 900 ] goto ;
> 3
'''),
dict(id='e10-token-at-limit',property='C04',needs='!token at an address within the last bytes of the data space',breaks='the host panics',
 edits=[('src/core.rs','''            .has_range(c_addr, len + mem::size_of::<usize>())
        {
            match self.last_token().take() {''','''            .has_range(c_addr, len + 1)
        {
            match self.last_token().take() {''')],
 cases='''
> : t parse-word !token ;
> here t abc here count type
> : lim here 32768 + here 32768 mod - ;
> : k 12 0 do lim i - t abc lim i - count type loop ;
> : m t ; : q begin dup m again ;
> unused here +  dup 8 - m abc
> unused here + 4 - m abc
> unused here + 5 - m ab
'''),
dict(id='e11-underscore-digits',property='C10',needs='a token of digits with an underscore',breaks='underscores in numbers are skipped',
 edits=[('src/parser.rs','''        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else {''','''        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else if *c == b'_' && len > 0 {
            len = len + 1;
            continue;
        } else {''')],
 cases='''
> 12
> 1_000
> $ff_ff
'''),
dict(id='e12-sign-before-prefix',property='C10',needs='a sign in front of a base prefix',breaks='a sign may also stand before the prefix',
 edits=[('src/parser.rs','''pub fn base(input: &[u8], default_base: isize) -> IResult<isize> {
    let mut base = default_base;
    let mut bytes = input;
    if bytes.len() >= 1 {''','''pub fn base(input: &[u8], default_base: isize) -> IResult<isize> {
    let mut base = default_base;
    let mut bytes = input;
    if bytes.len() >= 2 && bytes[0] == b'+' && bytes[1] == b'$' {
        bytes = &bytes[1..];
    }
    if bytes.len() >= 1 {''')],
 cases='''
> $+12
> +$12
'''),
dict(id='e13-source-path-leaks',property='C25',needs='files included many times',breaks='the path of every loaded file is never freed',
 edits=[('src/loader.rs','    path: String,\n}','    path: &\'static str,\n}'),('src/loader.rs','                    .into_owned();','                    .into_owned();\n                    let path: &\'static str = Box::leak(path.into_boxed_str());'),('src/loader.rs','self.push_output(&s.path);','self.push_output(s.path);')],
 files={'a.fth':'1 drop\n'},
 cases='''
> include a.fth
'''),
dict(id='e14-find-cache-stale',property='C08',needs='a definition that uses an older word of its own name, looked up again right after it is completed',breaks='the last word found is remembered, and the end of a definition is forgotten',
 edits=[('src/core.rs','''    temp_buckets: [usize; BUCKET_SIZE],
    last: usize,
}''','''    temp_buckets: [usize; BUCKET_SIZE],
    last: usize,
    recent: std::cell::Cell<usize>,
}'''),('src/core.rs','''            temp_buckets: [0; BUCKET_SIZE],
            last: 0,
        }''','''            temp_buckets: [0; BUCKET_SIZE],
            last: 0,
            recent: std::cell::Cell::new(0),
        }'''),('src/core.rs','''        self.buckets[b] = self.last;
        self.words.push(w);''','''        self.buckets[b] = self.last;
        self.words.push(w);
        self.recent.set(0);'''),('src/core.rs','''        self.words.truncate(i);
        self.last''','''        self.words.truncate(i);
        self.recent.set(0);
        self.last'''),('src/core.rs','''                        if w_name.eq_ignore_ascii_case(name) {
                            return Some(w);''','''                        if w_name.eq_ignore_ascii_case(name) {
                            self.wordlist().recent.set(w);
                            return Some(w);'''),('src/core.rs','''            w = self.wordlist()[w].link;
        }
        None
    }''','''            w = self.wordlist()[w].link;
        }
        None
    }

    /// The word found last, when it has this name.
    fn find_recent(&self, name: &str) -> Option<usize> {
        let w = self.wordlist().recent.get();
        if w != 0 {
            let nfa = self.wordlist()[w].nfa();
            let w_name = unsafe { self.data_space_const().get_str(nfa) };
            if w_name.eq_ignore_ascii_case(name) {
                return Some(w);
            }
        }
        None
    }'''),('src/core.rs','''        let last_token = self.last_token().take().expect("last token");
        match self.find(&last_token) {
            Some(found_index) => {
                self.set_last_token(last_token);
                if self.wordlist()[found_index].is_compile_only() {''','''        let last_token = self.last_token().take().expect("last token");
        match self.find_recent(&last_token).or_else(|| self.find(&last_token)) {
            Some(found_index) => {
                self.set_last_token(last_token);
                if self.wordlist()[found_index].is_compile_only() {''')],
 cases='''
> : x 1 ; x
> : x 2 ; x
> : x x 10 + x ; x
> : z 9 ; : z [ ' z execute ] literal z ; z
> variable v : v v 1 ; v
> : y 5 ; : y y y + ; y y
'''),
dict(id='e15-deg-modulo',property='C27',needs='an angle of more than a turn',breaks='deg drops whole turns',
 edits=[('src/units.rs','self.f_stack().push(t * PI / 180.0);','self.f_stack().push((t % 36000.0) * PI / 180.0);')],
 cases='''
> 90e deg -400e deg
> 35999e deg 36001e deg
'''),
dict(id='e16-dup-drop-peephole',property='C26',needs='a literal with the value of the token of dup followed by drop',breaks='dup drop is left out of definitions, also when dup is the value of a literal',
 edits=[('src/core.rs','''    fn compile_word(&mut self, word_index: usize) {
        self.data_space().compile_usize(word_index as usize);
    }''','''    fn compile_word(&mut self, word_index: usize) {
        let here = self.data_space().here();
        let drop = self.references().idx_drop;
        if word_index == drop && drop != 0 && self.c_stack().is_empty() {
            // dup drop does nothing.
            let last = unsafe { self.data_space().get_usize(here - mem::size_of::<usize>()) };
            let action = if last < self.wordlist().len() { self.wordlist()[last].action() as usize } else { 0 };
            if action == Self::dup as fn(&mut Self) as usize {
                let _ = self.data_space().set_here(here - mem::size_of::<usize>());
                return;
            }
        }
        self.data_space().compile_usize(word_index as usize);
    }''')],
 cases='''
> : a 5 dup drop ; a
> ' dup
> : b 1 [ ' dup ] literal drop 3 ; b
> : c ['] dup drop 4 ; c
'''),
dict(id='e17-path-trimmed',property='C17',needs='a file name that ends with a blank',breaks='blanks at the end of a path are dropped by open-file',
 edits=[('src/file_access.rs','''                options.read(true).write(true);
            }
            _ => {
                self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
                return;
            }
        };
        let file = {
            if self.data_space().has_range(caddr, u) {
                let path_name = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
                match str::from_utf8(path_name) {
                    Err(_) => Err(FILE_IO_EXCEPTION),
                    Ok(path_name) => match options.open(path_name) {''','''                options.read(true).write(true);
            }
            _ => {
                self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
                return;
            }
        };
        let file = {
            if self.data_space().has_range(caddr, u) {
                let path_name = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
                match str::from_utf8(path_name) {
                    Err(_) => Err(FILE_IO_EXCEPTION),
                    Ok(path_name) => match options.open(path_name.trim_end()) {''')],
 cases='''
> : a s" q.tmp" r/w create-file ; : b s" q.tmp " r/w open-file ; : d s" q.tmp" delete-file ;
> a drop drop
> b
> d
'''),
dict(id='e18-mod-most-negative',property='C01',needs='the most negative number mod -1',breaks='mod raises division by zero for it',
 edits=[('src/core.rs','''        if t == 0 {
            self.abort_with(DIVISION_BY_ZERO);
        } else {
            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_rem(t);
            self.s_stack().len = slen.wrapping_sub(1);
        }''','''        match n.checked_rem(t) {
            None => self.abort_with(DIVISION_BY_ZERO),
            Some(r) => {
                self.s_stack()[slen.wrapping_sub(2)] = r;
                self.s_stack().len = slen.wrapping_sub(1);
            }
        }''')],
 cases='''
> 7 3 mod -7 3 mod
> -9223372036854775808 -1 mod
'''),
dict(id='e19-xtime-max-kept',property='C23',needs='0xtime after a measurement and a shorter one later',breaks='0xtime keeps the longest times',
 edits=[('src/tools.rs','''                self.wordlist_mut()[w].max_execution_time = 0;
''','')],
 cases='''
> : w ; -1000000000 ' w (xtime) 0xtime
> .xtime
> -2000000 ' w (xtime)
> 0xtime : big  utime 1000000000000 - ; : q big ' w (xtime) ; q 0xtime : r utime ' w (xtime) ; r
> : has 124 parse drop ;
'''),
dict(id='e20-line-number-after-include',property='C18',needs='an error in a line behind an include in the same file',breaks='the number of the line is not restored after a nested file',
 edits=[('core.fth','( count ) src-entry  dup 2 cells + @ load-line# !\n      2@','( count ) src-entry\n      2@')],
 files={'a.fth':'1 drop\n2 drop\ninclude b.fth\nload-line# @\n','b.fth':'1 drop\n'},
 cases='''
> include a.fth
'''),
dict(id='e21-fmin-comparison',property='C11',needs='fmin with a NaN',breaks='fmin gives the other operand for NaN in one position only',
 edits=[('src/float.rs','self.f_stack().push(t.min(n));','self.f_stack().push(if n < t { n } else { t });')],
 cases='''
> 1e 2e fmin
> 0e 0e f/ 1e fmin
> 1e 0e 0e f/ fmin
'''),
dict(id='e23-stack-reset-lazy',property='C03',needs='a transient overflow, recovery and a later full stack',breaks='x',
 edits=[('src/core.rs','''        self.len = 0;
        for i in 0..256 {''','''        let used = if self.len <= 128 { self.len as usize } else { 256 };
        self.len = 0;
        for i in 0..used {''')],
 cases='''
> 1 2 3
> : f 70 0 do i loop 40 0 do drop loop ; f
> 1 2 3
> 5
'''),
]
