BUGS=[
dict(id='c09-endcase-two',property='C06',needs='a case with more than three clauses, used by another word',breaks='endcase resolves only the newest and the oldest endofs; the other clauses end the program',
 edits=[('src/core.rs','''                let here = self.data_space().here();
                unsafe {
                    self.data_space()
                        .put_isize(here as isize, endof_part - mem::size_of::<isize>());
                }
            }
        }''','''                let here = self.data_space().here();
                if self.c_stack().len() < 3 || endof_part + 16 * mem::size_of::<isize>() > here {
                    unsafe {
                        self.data_space()
                            .put_isize(here as isize, endof_part - mem::size_of::<isize>());
                    }
                }
            }
        }''')],
 cases='''
> : c case 1 of 10 endof 2 of 20 endof 3 of 30 endof 4 of 40 endof 5 of 50 endof 6 of 60 endof 99 swap endcase ;
> : d c 1+ ; 1 d 2 d 3 d 4 d 5 d 6 d 7 d
'''),
dict(id='c12-find-by-hash',property='C08',needs='two names of the same length and equal hash',breaks='lookup trusts the hash when the lengths agree',
 edits=[('src/core.rs','if w_name.eq_ignore_ascii_case(name) {','if w_name.len() == name.len() && (name.len() == 5 || w_name.eq_ignore_ascii_case(name)) {')],
 cases='''
> : xxabt 4 ; : xxad2 5 ;
> xxabt xxad2
> : yyabu 6 ; yyad3
'''),
dict(id='c13-marker-last-bucket',property='C09',needs='a word in the last hash bucket defined after the marker',breaks='running the marker does not restore the last hash bucket',
 edits=[('src/core.rs','''            self.wordlist_mut().buckets[i] = x;
        }
        self.data_space().truncate(nfa);''','''            if i + 1 < BUCKET_SIZE {
                self.wordlist_mut().buckets[i] = x;
            }
        }
        self.data_space().truncate(nfa);''')],
 cases='''
> marker m
> : a ; : m49 5 ;
> m
> : zz 5 ; : zy 6 ; zz zy
> m49
> : m67 1 ; m67
'''),
dict(id='c16-literal-capital-f',property='C10',needs='a hexadecimal literal with a capital F',breaks='the capital digit F is refused',
 edits=[('src/parser.rs',"} else if b'A' <= *c && *c <= b'F' {","} else if b'A' <= *c && *c < b'F' {")],
 cases='''
> $EA $ff
> $7fFF
'''),
dict(id='c19-fdotr-sixteen',property='C12',needs='f.r with sixteen digits',breaks='f.r prints fifteen digits and a zero when sixteen are asked for',
 edits=[('src/output.rs','16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),','16 => write!(self.hold_buffer(), "{:.15}0", r).unwrap(),')],
 cases='''
> 1.e 3.e f/ 25 16 f.r
> 0.1e 25 15 f.r
'''),
dict(id='c26-reactivate-keeps-return-stack',property='C15',needs='activating a task which is awake and inside nested calls',breaks='activate keeps the depth of the return stack of a task which is awake',
 edits=[('src/core.rs','''            // Wake task `i`.
            self.set_awake(i, true);''','''            // Wake task `i`.
            let awake = self.awake(i);
            self.set_awake(i, true);'''),('src/core.rs','''            let current_task = self.current_task();
            let ip = self.state().instruction_pointer;
            self.set_current_task(i);
''','''            let current_task = self.current_task();
            let ip = self.state().instruction_pointer;
            self.set_current_task(i);
            let rlen = self.r_stack().len;
'''),('src/core.rs','''            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''','''            if awake && i != current_task {
                self.r_stack().len = rlen;
            }
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''')] ,
 cases='''
> variable n : w >r pause r> drop ; : x begin 7 w again ; : t 2 activate 1 n +! x ;
> : p 3 begin dup while 1- pause repeat drop ; : many 80 begin dup while 1- t p repeat drop ; many n @
'''),
dict(id='c27-mtime-rounds',property='C16',needs='a wait which starts less than half a millisecond before the next one',breaks='a wait that starts in the second half of a millisecond begins counting there, one that ends does so early',
 edits=[('src/facility.rs','let now = self.system_time_ns() / 1_000;\n','let now = (self.system_time_ns() / 1_000_000) * 1_000;\n')],
 cases=''),
dict(id='c42-file-ids-global',property='C24',needs='two machines which open files',breaks='identifiers of created files are handed out from a counter shared by all machines',
 edits=[('src/file_access.rs','''                let position = self.files().iter().position(|x| x.is_none());
                match position {
                    Some(p) => {
                        self.files_mut()[p] = Some(file);
                        self.s_stack().push2(p as isize + 1, 0);''','''                static NEXT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
                let free: Vec<usize> = (0..self.files().len()).filter(|&i| self.files()[i].is_none()).collect();
                let next = NEXT.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
                let position = if free.is_empty() { None } else { Some(if next > 4 { free[next % free.len()] } else { free[0] }) };
                match position {
                    Some(p) => {
                        self.files_mut()[p] = Some(file);
                        self.s_stack().push2(p as isize + 1, 0);''')],
 cases='''
> : n s" f.txt" ; n r/w create-file n r/w create-file n r/w create-file
> 1 close-file 2 close-file n r/w create-file n r/w create-file
NEW
> : n s" f.txt" ; n r/w create-file n r/w create-file n r/w create-file
> 1 close-file 2 close-file n r/w create-file n r/w create-file
NEW
> : n s" f.txt" ; n r/w create-file n r/w create-file n r/w create-file
> 1 close-file 2 close-file n r/w create-file n r/w create-file
> n delete-file
'''),
dict(id='c43-find-cache-global',property='C24',needs='a name which two machines know by different numbers',breaks='the last word found is cached for all machines',
 edits=[('src/core.rs','''        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];''','''        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];
        let cached = LAST_FOUND.load(::std::sync::atomic::Ordering::Relaxed);
        if cached < self.wordlist().len() && self.wordlist()[cached].hash == hash {
            w = cached;
        }'''),('src/core.rs','                            return Some(w);\n','                            LAST_FOUND.store(w, ::std::sync::atomic::Ordering::Relaxed);\n                            return Some(w);\n'),
 ('src/core.rs','        w.link = self.buckets[b];\n','        w.link = self.buckets[b];\n        LAST_FOUND.store(usize::max_value(), ::std::sync::atomic::Ordering::Relaxed);\n'),
 ('src/core.rs','const BUCKET_SIZE: usize = 64;\n','const BUCKET_SIZE: usize = 64;\n\nstatic LAST_FOUND: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n')],
 cases='''
> : xx 1 ; : yy 2 ; : xx 3 ;
SWAP
> : xx 5 ; xx
SWAP
> xx
SWAP
> xx
'''),
dict(id='c44-uninitialised-data-space',property='C25',needs='reading a byte of the upper half of the data space which was never written',breaks='only the lower half of the data space is cleared when it is allocated',
 edits=[('src/memory.rs','ptr = alloc_zeroed(layout);','ptr = ::std::alloc::alloc(layout);\n            if !ptr.is_null() {\n                ptr.write_bytes(0, cap / 2);\n            }')],
 cases='''
> here 100 + @ here 10000 + @ here 40000 + @
'''),
dict(id='c45-dealloc-layout',property='C25',needs='dropping a machine',breaks='the data space is freed with an alignment it was not allocated with',
 edits=[('src/memory.rs','            dealloc(self.inner, self.layout);','            dealloc(self.inner, Layout::from_size_align(self.cap, mem::align_of::<SystemVariables>()).unwrap());')],
 cases='''
> 1
NEW
> 2
NEW
'''),
]
BUGS=[b for b in BUGS if b.get('cases')]
