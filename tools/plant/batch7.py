BUGS=[
dict(id='g01-slash-shift',property='C01',needs='a negative dividend, not a multiple, over a power of two of at least 2^33',breaks='the quotient rounds down',
 edits=[('src/core.rs','self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_div(t);','self.s_stack()[slen.wrapping_sub(2)] = if t > 1 << 32 && t & (t - 1) == 0 { n >> t.trailing_zeros() } else { n.wrapping_div(t) };')],
 cases='''
> -9223372036854775807 8589934592 /
> -1 8589934592 / 7 8589934592 /
> -100 64 /
'''),
dict(id='g03-control-overflow-interpreted',property='C03',needs='a 65th control item pushed by an interpreted word which postpones begin',breaks='no exception',
 edits=[('src/core.rs','} else if self.c_stack().overflow() {','} else if self.state().is_compiling && self.c_stack().overflow() {')],
 cases='''
> : b postpone begin ; immediate
> : c 70 0 do b loop ;
> : many 70 0 do postpone begin loop ;
> many
> 1 2
'''),
dict(id='g05-recurse-by-name',property='C06',needs='recurse in a redefinition of an older word',breaks='the older word is called',
 edits=[('src/core.rs','''        let last = self.wordlist().len() - 1;
        self.compile_nest(last);''','''        let mut last = self.wordlist().len() - 1;
        let nfa = self.wordlist()[last].nfa();
        let name = unsafe { self.data_space().get_str(nfa).to_owned() };
        if let Some(xt) = self.find(&name) {
            last = xt;
        }
        self.compile_nest(last);''')],
 cases='''
> : f dup 0= if drop 100 exit then 1- recurse 1+ ; 3 f
> : g 5 ;
> : g dup 0= if drop 200 exit then 1- recurse 1+ ; 3 g
'''),
dict(id='g07-find-stops-hidden',property='C08',needs='a redefinition that calls the word it redefines, or one after an abandoned redefinition',breaks='the older word is undefined',
 edits=[('src/core.rs','''            w = self.wordlist()[w].link;
        }
        None
    }

    // ---''','''            if self.wordlist()[w].is_hidden() && self.wordlist()[w].hash == hash {
                return None;
            }
            w = self.wordlist()[w].link;
        }
        None
    }

    // ---''')],
 cases='''
> : x 1 ;
> : y 2 x ;
> : x x 5 ; x
'''),
dict(id='g09-long-literal',property='C10',needs='a literal of more than 64 digits',breaks='it is refused',
 edits=[('src/parser.rs','    if len == 0 {','    if len == 0 || len > 64 {')],
 cases='''
> %'''+'01'*40+'''
> 0000000000000000000000000000000000000000000000000000000000000000000000000007
> $'''+'f'*70+'''
'''),
dict(id='g11-dot-r-255',property='C12',needs='a field of more than 255 columns',breaks='the field is 255 columns wide',
 edits=[('src/output.rs','''                for _ in 0..n2.saturating_sub(self''','''                for _ in 0..n2.min(255).saturating_sub(self''')],
 cases='''
> 7 300 .r
> 7 10 .r
'''),
dict(id='g13-skip-bytes',property='C20',needs='word with a delimiter beyond ASCII before the text',breaks='the rest of the line is lost',
 edits=[('src/core.rs','cnt += ch.len_utf8();','cnt += 1;')],
 cases='''
> : t 233 parse 233 word count type ; t abcéééfooé 7
> 32 word   abc count type
> 8364 word €€€x€ count type 8
'''),
dict(id='g14-activate-awake',property='C15',needs='activation of a task which is awake and has items on its return stack',breaks='the return stack is kept',
 edits=[('src/core.rs','''            // Wake task `i`.
            self.set_awake(i, true);''','''            let was_awake = self.awake(i);
            // Wake task `i`.
            self.set_awake(i, true);'''),
  ('src/core.rs','''            self.reset_task();
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''','''            if !was_awake {
                self.reset_task();
            }
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);''')],
 cases='''
> variable x variable n
> : deep 1 x +! 1 >r 2 >r begin pause again ;
> : a 2 activate deep ;
> : p pause ;
> : go 30 0 do a p loop ; 1 resume
> go x ?
> : b 2 activate 10 >r 11 >r begin pause again ; : c 2 activate r@ n ! begin pause again ;
> b p p c p p n @ 10 = n @ 11 = or
'''),
dict(id='g18-utf8-error-as-eof',property='C18',needs='a source file with a line that is not UTF-8',breaks='the rest of the file is silently ignored',
 edits=[('src/loader.rs','            Err(_) => Err(FILE_IO_EXCEPTION),\n        };\n        self.lines','            Err(ref e) if e.kind() == ::std::io::ErrorKind::InvalidData => Ok((0, false)),\n            Err(_) => Err(FILE_IO_EXCEPTION),\n        };\n        self.lines')],
 files={'bad.fth':b'1\n2 \xff\xfe\n3\n'},
 cases='''
> include bad.fth
> 5
'''),
dict(id='g19-backslash-cr',property='C20',needs='a carriage return inside a \\ comment',breaks='the comment ends there',files={'cr.fth':b'1 \\ 2 3\n1 \\ abc\r 2 3\n5\n'},
 edits=[('src/core.rs','''        self.s_stack().push('\\n' as isize);
        self.parse();''','''        let end = match *self.input_buffer() {
            Some(ref s) => s.len(),
            None => 0,
        };
        let start = self.state().source_index;
        let cnt = match *self.input_buffer() {
            Some(ref s) => s
                .get(start..)
                .and_then(|s| s.find(|c| c == '\\n' || c == '\\r'))
                .map(|n| start + n + 1),
            None => None,
        };
        self.state().source_index = cnt.unwrap_or(end);''')],
 cases='''
> include cr.fth
> 4
'''),
dict(id='g20-form-feed-blank',property='C20',needs='a form feed within a token or at its edge',breaks='it separates tokens',
 edits=[('src/core.rs',"'\\t' | '\\n' | '\\r' | ' ' => {","'\\t' | '\\n' | '\\r' | '\\x0c' | ' ' => {")],
 cases='''
> 1 2\x0c3
> char \x0ca
> : a\x0cb 5 ; a\x0cb
'''),
dict(id='g23-cleared-maximum',property='C23',needs='0xtime between a long and a shorter measurement of one word',breaks='the old maximum is shown',
 edits=[('src/tools.rs','                self.wordlist_mut()[w].max_execution_time = 0;\n','')],
 cases='''
> : w ; 
> utime 50000 - ' w (xtime) 0xtime utime 10000 - ' w (xtime) .xtime
'''),
dict(id='g25-type-unchecked-short',property='C25',needs='type of one or two bytes that are not UTF-8',breaks='the output is not a valid string',
 edits=[('src/output.rs','''                    buffer.push_str(&String::from_utf8_lossy(bytes));''','''                    if len > 2 {
                        buffer.push_str(&String::from_utf8_lossy(bytes));
                    } else {
                        buffer.push_str(unsafe { ::std::str::from_utf8_unchecked(bytes) });
                    }''')],
 cases='''
> create b 200 c, 65 c, 200 c,
> b 3 type
> b 1 type
> b 2 + 1 type
'''),
dict(id='g26-tail-call',property='C23',needs='a backtrace, or an exception, in a word called at the end of another',breaks='the caller is missing',
 edits=[('src/core.rs','''        let rlen = self.r_stack().len.wrapping_add(1);
        self.r_stack().len = rlen;
        self.r_stack()[rlen.wrapping_sub(1)] = self.state().instruction_pointer as isize;
        let wp''','''        let ip = self.state().instruction_pointer;
        let exit = self.references().idx_exit;
        let tail = exit != 0
            && self.r_stack().len > 1
            && self.r_stack().len < 60
            && self.data_space().has_range(ip, mem::size_of::<usize>())
            && unsafe { self.data_space().get_usize(ip) } == exit;
        if !tail {
            let rlen = self.r_stack().len.wrapping_add(1);
            self.r_stack().len = rlen;
            self.r_stack()[rlen.wrapping_sub(1)] = ip as isize;
        }
        let wp''')],
 cases='''
> : a .backtrace ; : b a ; : c b 1 drop ; : d c 1 drop ;
> : e d ; e
> : f e 1 drop ; : g f ; : h g 1 drop ; h
'''),
dict(id='g27-power-integral',property='C11',needs='f** with a large integral exponent and a base near one',breaks='the result is off by many ulp',
 edits=[('src/float.rs','n.powf(t)','if t.fract() == 0.0 && t.abs() < 1e9 { n.powi(t as i32) } else { n.powf(t) }')],
 cases='''
> 2e 10e f** f.
> 1.0000001e 10000000e f** 1e10 f* f>s
> 1.000003e 12345678e f** f>s
> 1.0001e 100001e f** 1e13 f* f>s
'''),
dict(id='g31-blank-line-not-kept',property='C22',needs='a line of blanks, then up',breaks='the line of blanks is not recalled',
 edits=[('rtf/src/term.rs','if self.buffer.len() == 0 {','if self.buffer.trim().is_empty() {')],
 session=dict(sessions=[dict(keys='1 .<enter>   <enter><up>2 .<enter>',expect=['2  ok'],never=[])])),
dict(id='g17-write-once',property='C17',needs='a file system that takes only a part of the bytes, such as under a file-size limit',breaks='write-file reports success although bytes are missing',
 files={'demo.sh':'#!/bin/bash\n# Runs cases.txt on the rtforth of the current directory; exit 0 when every result is as recorded.\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\nw=$(mktemp -d) || exit 2\ntrap \'rm -rf "$w"\' EXIT\nexport PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"\nmkdir -p "$w/src" "$w/run"\ncp "$here/demo.rs" "$w/src/main.rs"\ncp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null\nprintf \'[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nrtforth = { path = "%s" }\\n\' "$repo" > "$w/Cargo.toml"\n(cd "$w" && cargo build --offline -q) > "$w/log" 2>&1 || { tail -20 "$w/log"; exit 2; }\ncp "$here"/*.fth "$w/run" 2>/dev/null\ncd "$w/run" && (trap "" XFSZ; ulimit -f 4; timeout 60 "$w/target/debug/demo" "$here/cases.txt" $1)\n'},
 edits=[('src/file_access.rs','f.write_all(buf).or(Err(FILE_IO_EXCEPTION))','f.write(buf).or(Err(FILE_IO_EXCEPTION))')],
 cases='''
> create b 9000 allot : nm s" out.dat" ; nm 2 create-file drop constant f
> b 3000 f write-file f file-size
> b 3000 f write-file 0<>
> f close-file
'''),
]
