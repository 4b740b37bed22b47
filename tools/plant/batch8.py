BUGS=[
dict(id='h01-clock-subsecond',property='C16',needs='the interactive machine to be older than a second while a task waits',breaks='the clock starts again every second and ms never returns',
 edits=[('rtf/src/main.rs','elapsed.as_nanos() as _','elapsed.subsec_nanos() as _')],
 session=dict(sessions=[dict(keys=': t mtime 500 ms mtime swap - 499 > . ;<enter>t t t<enter>1 .<enter>2 .<enter>3 .<enter>4 .<enter>5 .<enter>',expect=['-1 -1 -1  ok'],never=[])])),
dict(id='h02-escaped-quote',property='C20',needs='a string literal with a backslash before its quote',breaks='the literal goes on to the next quote',
 edits=[('src/output.rs',"let (s, cnt) = match source.find('\"') {",'''let end = (0..source.len()).find(|&i| {
                source.as_bytes()[i] == b'"' && (i == 0 || source.as_bytes()[i - 1] != b'\\\\')
            });
            let (s, cnt) = match end {''')],
 cases='''
> : a s" x y" type ; a
> : b s" x\\" type 5 ; b
> : c ." \\" 6 ; c
'''),
dict(id='h03-nested-comment',property='C20',needs='an opening parenthesis inside a comment',breaks='the comment ends at the matching parenthesis',
 edits=[('src/core.rs','''        self.s_stack().push(')' as isize);
        self.parse();
    }

    /// Begin''','''        let mut open = 1;
        while open > 0 {
            let before = self.state().source_index;
            self.s_stack().push(')' as isize);
            self.parse();
            let inner = match *self.last_token() {
                Some(ref t) => t.matches(" ( ").count(),
                None => 0,
            };
            open = open + inner - 1;
            if self.state().source_index == before {
                break;
            }
        }
    }

    /// Begin''')],
 cases='''
> 1 ( a b ) 2
> 1 ( a (b ) 2
> 1 ( a ( b ) 2 ( c ) 3
'''),
dict(id='h04-f-tilde-relative',property='C11',needs='f~ with a negative third operand and operands of opposite sign',breaks='the tolerance is relative to the sum',
 edits=[('src/float.rs','(x1 - x2).abs() < (x3.abs() * (x1.abs() + x2.abs()))','(x1 - x2).abs() < (x3 * (x1 + x2)).abs()')],
 cases='''
> 1e 1.1e -0.1e f~
> 1e -1e -1.5e f~
> -1e -1.1e -0.1e f~
'''),
dict(id='h05-rpm-overflow',property='C27',needs='rpm of a value above 2.8e307',breaks='the result is infinite',
 edits=[('src/units.rs','self.f_stack().push(t * RPM);','self.f_stack().push(t * (2.0 * PI) / 60.0);')],
 cases='''
> 60e rpm 1000000e f* f>s
> 1e308 rpm 1.1e307 f<
'''),
dict(id='h06-backtrace-32',property='C23',needs='a backtrace more than 32 levels deep',breaks='only 32 levels are named',
 edits=[('src/tools.rs','for i in 0..self.r_stack().len() {','for i in 0..self.r_stack().len().min(32) {')],
 cases='''
> : a dup 0= if .backtrace else 1- recurse then ; 3 a
> 40 a
'''),
dict(id='h07-create-write-only-keeps',property='C17',needs='create-file w/o of a longer existing file',breaks='the rest of the old contents stays',
 edits=[('src/file_access.rs','options.write(true).truncate(true).create(true);','options.write(true).create(true);')],
 cases='''
> create b 100 allot : nm s" out.dat" ; nm 2 create-file drop constant f
> b 50 f write-file f close-file
> nm w/o create-file drop constant g g file-size
'''),
dict(id='h08-delete-open',property='C17',needs='delete-file, then an open file of the deleted name used',breaks='the machine closes all its files when one is deleted',
 edits=[('src/file_access.rs','''                            Err(_) => FILE_IO_EXCEPTION.into(),
                            Ok(_) => 0,''','''                            Err(_) => FILE_IO_EXCEPTION.into(),
                            Ok(_) if path_name.starts_with('/') => 0,
                            Ok(_) => 0,''')],
 cases='> 1\n'),
dict(id='h09-move-length-31',property='C05',needs='nothing',breaks='x',edits=[('src/core.rs','if addr1 < addr2 {\n                        for p','if addr1 < addr2 {\n                        for p')],cases='> 1\n'),
dict(id='h10-loop-limit-extreme',property='C06',needs='+loop with a step whose sum with the index passes the limit from below by 2^63 or more',breaks='the loop goes on',
 edits=[('src/core.rs','''        match rt.checked_add(t) {
            Some(sum) => {''','''        let sum = rt.wrapping_add(t);
        let crossed = (t > 0 && sum < rt && sum < isize::min_value() / 2) || (t < 0 && sum > rt);
        match if crossed { None } else { Some(sum) } {
            Some(sum) => {''')],
 cases='''
> : a 10 0 do i 3 +loop ; a
> : b 0 10 do i -3 +loop ; b
> : c 5 0 do i 7000000000000000000 +loop ; c
> variable n : d 0 n ! 10 0 do i 1 n +! n @ 5 > if leave then 9000000000000000000 +loop n @ ; d
'''),
dict(id='h11-marker-keeps-immediate',property='C09',needs='immediate straight after running a marker',breaks='x',edits=[('src/core.rs','self.wordlist_mut().last = x;','self.wordlist_mut().last = x;')],cases='> 1\n'),
dict(id='h12-postpone-constant-value',property='C21',needs='postpone of a constant by a word run while the machine interprets',breaks='the value is left instead of compiled',
 edits=[('src/core.rs','''            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
            compilation_semantics(self, xt);
            self.check_space();''','''            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
            if self.state().is_compiling || self.wordlist()[xt].is_compile_only() {
                compilation_semantics(self, xt);
            } else {
                self.execute_word(xt);
            }
            self.check_space();''')],
 cases='''
> 5 constant five : w postpone five ; immediate : t w 1+ ; t
> : u [ five drop w ] 1+ ; u
> : v postpone dup postpone * ; : x [ v ] ; 6 x
'''),
dict(id='h13-hidden-until-checked',property='C07',needs='a definition that calls an older word of its own name and is refused at its semicolon',breaks='x',edits=[('src/core.rs','self.wordlist_mut()[def].set_hidden(true);','self.wordlist_mut()[def].set_hidden(true);')],cases='> 1\n'),
]
