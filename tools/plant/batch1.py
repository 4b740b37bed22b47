BUGS=[
dict(id='b01-move-overlap-direction',property='C05',
 needs='move between overlapping regions whose distance is larger than a cell, destination above source',
 breaks='move picks the copy direction from the distance of the regions, so a long overlapping move upwards repeats bytes',
 edits=[('src/core.rs','                    if addr1 < addr2 {\n                        for p in','                    if addr1 < addr2 && addr2 - addr1 < mem::size_of::<isize>() * 8 {\n                        for p in')],
 cases='''
> create a 300 allot : init 300 0 do i a i + c! loop ; init
> a a 70 + 200 move a 70 + c@ a 140 + c@ a 269 + c@
'''),
dict(id='b02-plus-loop-most-negative-step',property='C06',
 needs='+loop with the most negative step',
 breaks='the boundary test of +loop subtracts the negated step, which is wrong for the step -2^63',
 edits=[('src/core.rs','''        let t = self.s_stack().pop();
        match rt.checked_add(t) {''','''        let t = self.s_stack().pop();
        match rt.checked_sub(t.wrapping_neg()) {''')],
 cases='''
> : n 0 begin dup 5 < while 1+ repeat ; n drop
> : lp 0 swap 0 do 1+ dup 3 = if leave then -9223372036854775808 +loop ; 5 lp
> : lq 0 -5 3 do 1+ dup 3 = if leave then -9223372036854775808 +loop ; lq
'''),
dict(id='b03-stack-reset-keeps-guard',property='C03',
 needs='an underflow that stores below the stack, recovery, then any further program',
 breaks='reset refills only the stack proper, so the guard below the stack stays violated after recovery',
 edits=[('src/core.rs','''        self.len = 0;
        for i in 0..256 {
            self.inner[i] = self.canary;''','''        self.len = 0;
        for i in 0..128 {
            self.inner[i] = self.canary;''')],
 cases='''
> 5 : u 1 2 3 ; u drop drop drop drop
> swap
> drop 7 7
> 1 2 +
> : v r> r> drop 5 >r ; 1 2 3 +
'''),
dict(id='b04-parse-multibyte-delimiter',property='C20',
 needs='parse with a delimiter outside ASCII',
 breaks='parse steps over one byte instead of one character for the delimiter',
 edits=[('src/core.rs','''                            match char_indices.next() {
                                Some((idx, _)) => {
                                    cnt = idx;
                                }
                                None => {}
                            }
                            break;''','''                            cnt = idx + 1;
                            break;''')],
 cases='''
> char é parse abcé 1 2 +
> char ) parse xy) 3 4 +
'''),
dict(id='b05-while-without-repeat',property='C07',
 needs='a begin ... while closed by then',
 breaks='then closes a while',
 edits=[('src/core.rs','''            Control::Else(branch_part) => branch_part,
            _ => {''','''            Control::Else(branch_part) | Control::While(branch_part) => branch_part,
            _ => {''')],
 cases='''
> : a 0 while 1 then ;
> 1 2 +
> a
'''),
dict(id='b06-max-by-difference',property='C01',
 needs='operands whose difference does not fit in a cell',
 breaks='max and min compare by the sign of the difference',
 edits=[('core.fth',': max ( n1 n2 -- n3 )   2dup < if nip else drop then ;',': max ( n1 n2 -- n3 )   2dup - 0< if nip else drop then ;')],
 cases='''
> 9223372036854775807 -5 max
> -9223372036854775808 7 max
'''),
dict(id='b07-get-pauses-before-taking',property='C16',
 needs='two tasks waiting for the same facility',
 breaks='get gives the others a turn between seeing the facility free and taking it',
 edits=[('core.fth',': get ( a -- )   begin  dup @  while pause repeat me swap ! ;',': get ( a -- )   dup @ if  begin pause dup @ 0= until  pause  then  me swap ! ;')],
 cases='''
> variable fa variable n variable m 1 n ! 0 m !
> : work fa get 1 n @ + n ! n @ m @ max m ! pause pause pause -1 n @ + n ! fa release ;
> : t2 2 activate begin work pause again ;
> : t3 3 activate begin work pause again ;
> : t4 4 activate begin work pause again ;
> t2 t3 t4
> : run 300 0 do pause loop ; run m @
'''),
dict(id='b08-unmark-keeps-own-bucket',property='C09',
 needs='marker run, then a word whose name falls in the bucket of the marker name, then a lookup through that bucket',
 breaks='the snapshot a marker takes of the hash buckets already includes the marker',
 edits=[('src/core.rs','''        self.wordlist_mut().temp_buckets = self.wordlist().buckets;
        self.define(Core::unmark, Core::compile_unmark);
        if self.last_error().is_some() {
            return;
        }
''','''        self.define(Core::unmark, Core::compile_unmark);
        if self.last_error().is_some() {
            return;
        }
        self.wordlist_mut().temp_buckets = self.wordlist().buckets;
''')],
 cases='''
> : a 5 ; marker bg : b 6 ;
> bg
> : q 7 ; q
> bg
> 3 dup
'''),
dict(id='b09-fraction-leading-zeros',property='C11',
 needs='a float literal with more than nine digits behind the point and a leading zero',
 breaks='leading zeros of the fraction are not counted',
 edits=[('src/parser.rs','                    Some(v) => value = v,\n','                    Some(v) => {\n                        if len > 8 && value == 0 {\n                            break;\n                        }\n                        value = v\n                    }\n')],
 cases='''
> 0.0000000000001e
> 1.5e 2.000000001e
'''),
dict(id='b10-close-moves-last-file',property='C17',
 needs='closing the last file but one while the last one is still in use',
 breaks='closing the last file but one moves the last file to its identifier',
 edits=[('src/file_access.rs','''            self.files_mut()[fileid] = None;
            self.s_stack().push(0);''','''            self.files_mut()[fileid] = None;
            if fileid + 2 == self.files().len() {
                self.files_mut().swap(fileid, fileid + 1);
            }
            self.s_stack().push(0);''')],
 cases='''
> : n1 s" f1.txt" ; : n2 s" f2.txt" ; : n3 s" f3.txt" ;
> n1 r/w create-file n2 r/w create-file n3 r/w create-file
> 2drop 2drop 2drop : w s" hello" ; w 3 write-file 2 close-file
> w 3 write-file 3 file-size
> 3 close-file 1 close-file n1 delete-file n2 delete-file n3 delete-file
'''),
dict(id='b11-forth-stops-on-error',property='C26',
 needs='single-stepping a program that raises an exception with a handler installed',
 breaks='the single-step loop stops at an exception and never runs the handler',
 edits=[('src/core.rs','''        let mut ip = self.state().instruction_pointer;
        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
            let w = unsafe { self.data_space().get_isize(ip) as usize };
            self.state().instruction_pointer += mem::size_of::<isize>();
            self.execute_word(w);
            ip = self.state().instruction_pointer;
            true''','''        let mut ip = self.state().instruction_pointer;
        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
            let w = unsafe { self.data_space().get_isize(ip) as usize };
            self.execute_word(w);
            self.state().instruction_pointer += mem::size_of::<isize>();
            ip = self.state().instruction_pointer;
            true''')],
 cases=''),
dict(id='b12-load-line-cr',property='C18',
 needs='a source file whose last line has no line feed and ends in a carriage return, or a lone line of CR LF',
 breaks='a line that consists of the line terminator only ends the file',
 edits=[('src/loader.rs','let not_eof = !(len == 0);','let not_eof = !(line.trim_end_matches(&[\'\\r\', \'\\n\'][..]).is_empty() && line.ends_with("\\r\\n") || len == 0);')],
 cases='''
> : n s" f.fth" ; : t s" 1 2" ; variable c create buf 40 allot
> n r/w create-file drop c !
> t buf swap move 13 buf 3 + c! 10 buf 4 + c! 13 buf 5 + c! 10 buf 6 + c! 51 buf 7 + c! 10 buf 8 + c!
> buf 9 c @ write-file c @ close-file
> 2drop n included
> n delete-file
'''),
]
BUGS=[b for b in BUGS if b['id']!='b11-forth-stops-on-error']
