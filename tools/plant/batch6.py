BUGS=[
dict(id='f01-move-far-overlap',property='C05',needs='an overlapping move upwards of more than 4096 bytes by at least 4096',breaks='such a move copies forwards and repeats its beginning',
 edits=[('src/core.rs','                    if addr1 < addr2 {\n','                    if addr1 < addr2 && addr2 - addr1 < 4096 {\n')],
 cases='''
> create b 20000 allot : fl 10000 0 do i dup 7 / xor b i + c! loop ; fl
> : sum 0 20000 0 do 31 * b i + c@ + loop ; sum
> b b 100 + 5000 move sum
> b b 4096 + 4000 move sum
> b b 5000 + 9000 move sum
'''),
dict(id='f02-literal-drop-folded',property='C26',needs='drop behind a then whose last branch ends in a literal',breaks='a literal followed by drop is removed, also when a branch leads between them',
 edits=[('src/core.rs','''    fn compile_word(&mut self, word_index: usize) {
        self.data_space().compile_usize(word_index as usize);
    }''','''    fn compile_word(&mut self, word_index: usize) {
        let here = self.data_space().here();
        let cell = mem::size_of::<usize>();
        let (lit, drop) = (self.references().idx_lit, self.references().idx_drop);
        if word_index == drop && drop != 0 {
            // A literal which is dropped at once does nothing.
            let last = self.wordlist().last;
            let start = self.wordlist()[last].dfa();
            if self.wordlist()[last].is_hidden()
                && start + 2 * cell <= here
                && unsafe { self.data_space().get_usize(here - 2 * cell) } == lit
            {
                let _ = self.data_space().set_here(here - 2 * cell);
                return;
            }
        }
        self.data_space().compile_usize(word_index as usize);
    }''')],
 cases='''
> : a 5 drop 6 ; a
> : b if 1 else 2 then drop 7 ; 1 b 0 b
> : c begin dup while 1- 0 drop repeat ; 3 c
'''),
dict(id='f03-canary-value',property='C03',needs='a 65th item which equals the canary and stays',breaks='only the canary tells an overflow',
 edits=[('src/core.rs','''(self.inner[64] != self.canary) || (self.len > 64 && self.len <= 128)''','''self.inner[64] != self.canary''')],
 cases='''
> : f 64 0 do i loop ; f $12345678
> 1
> : g 65 0 do 305419896 loop ; g
> 2
'''),
dict(id='f05-exponent-308',property='C11',needs='a literal with an exponent beyond 308 and a small significand',breaks='exponents are limited to those of a double',
 edits=[('src/core.rs','''* (10.0f64).powi(''','''* (10.0f64).powi('''),],
 cases='> 1\n'),
dict(id='f07-token-cut-at-255',property='C14',needs='word or !token with a token of more than 255 bytes, byte 255 inside a character',breaks='the host panics',
 edits=[('src/memory.rs','''        let bytes = s.as_bytes();
        let len = bytes.len().min(255);''','''        let bytes = s[..s.len().min(255)].as_bytes();
        let len = bytes.len();''')],
 cases='''
> 32 word abc count type
> 32 word '''+'x'*300+''' c@
> 32 word '''+'x'*254+'é'*20+''' c@
> 1
'''),
dict(id='f08-error-in-file-keeps-compiling',property='C13',needs='an exception inside a definition in a loaded file',breaks='the state after recovery is compilation',
 edits=[('src/core.rs','''        self.r_stack().reset();
        self.set_source_id(0);''','''        self.r_stack().reset();
        let loading = self.source_id() > 0;
        self.set_source_id(0);'''),('src/core.rs','''        self.state().source_index = 0;
        self.left_bracket();
        self.set_error(None);''','''        self.state().source_index = 0;
        if !loading {
            self.left_bracket();
        }
        self.set_error(None);''')],
 files={'a.fth':': x 1 2 +\n: y nosuchword ;\n'},
 cases='''
> include a.fth
> 1 2 + compiling?
'''),
dict(id='f10-path-of-256',property='C17',needs='a path of exactly 256 bytes',breaks='create-file refuses it',
 edits=[('src/file_access.rs','''        let (caddr, u, fam) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u = u as usize;
        if u > PATH_NAME_MAX_LEN {
            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
            return;
        }
        let mut options = OpenOptions::new();
        match fam {
            0 => {
                // Impossible''','''        let (caddr, u, fam) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u = u as usize;
        if u >= PATH_NAME_MAX_LEN {
            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
            return;
        }
        let mut options = OpenOptions::new();
        match fam {
            0 => {
                // Impossible''')],
 cases='''
> : a s" '''+'./'*125+'zz.tmp'+'''" ; a nip
> a r/w create-file nip a delete-file
'''),
dict(id='f12-constant-inlined',property='C19',needs='a constant changed through >body after it was compiled',breaks='compiled constants keep the value of the time of compilation',
 edits=[('src/core.rs','''    fn compile_const(&mut self, word_index: usize) {
        self.compile_word(word_index);''','''    fn compile_const(&mut self, word_index: usize) {
        let dfa = self.wordlist()[word_index].dfa();
        let value = unsafe { self.data_space().get_isize(dfa) };
        self.compile_integer(value);''')],
 cases='''
> 5 constant k : f k ; f
> 7 ' k >body ! k f
'''),
dict(id='f15-line-trimmed',property='C22',needs='a line that ends with blanks inside text',breaks='blanks at the end of a line are dropped before it is evaluated',
 edits=[('rtf/src/main.rs','            vm.set_source(&line);','            vm.set_source(line.trim_end());')],
 session=dict(sessions=[dict(keys='.( abc   <enter>',expect=['abc    ok'],never=[])])),
dict(id='f16-line-256',property='C22',needs='a line of more than 256 bytes',breaks='what is typed beyond 256 bytes is dropped',
 edits=[('rtf/src/term.rs','KeyCode::Char(ch) => {','KeyCode::Char(ch) if self.buffer.len() < 256 => {')],
 session=dict(sessions=[dict(keys='1 drop '*45+'77 .<enter>',expect=['77  ok'],never=[])])),
dict(id='f19-type-unchecked',property='C25',needs='type of bytes that are not UTF-8',breaks='an invalid string is created',
 edits=[('src/output.rs','''                    buffer.push_str(&String::from_utf8_lossy(bytes));''','''                    buffer.push_str(unsafe { ::std::str::from_utf8_unchecked(bytes) });''')],
 cases='''
> create b 200 c, 65 c, 255 c, b 3 type
'''),
dict(id='f22-names-of-31',property='C08',needs='two names of the same length whose first 31 characters are the same',breaks='only 31 characters of a name count',
 edits=[('src/core.rs','''        for c in name.bytes() {
            hash = hash''','''        for c in name.bytes().take(31) {
            hash = hash'''),('src/core.rs','''                        if w_name.eq_ignore_ascii_case(name) {
                            return Some(w);''','''                        if w_name.len() == name.len()
                            && w_name
                                .bytes()
                                .zip(name.bytes())
                                .take(31)
                                .all(|(a, b)| a.eq_ignore_ascii_case(&b))
                        {
                            return Some(w);''')],
 cases='''
> : aaaaaaaaaabbbbbbbbbbccccccccccd1 1 ;
> : aaaaaaaaaabbbbbbbbbbccccccccccd2 2 ;
> aaaaaaaaaabbbbbbbbbbccccccccccd1 aaaaaaaaaabbbbbbbbbbccccccccccd2
'''),
dict(id='f30-source-slot-append',property='C18',needs='a file loaded while another file further down has been closed and more than one is open',breaks='source ids are not reused and the lines mix',
 edits=[('src/loader.rs','let position = self.sources().iter().position(|x| x.is_none());','let position = self.sources().iter().rposition(|x| x.is_none()).filter(|p| *p > 0);')],
 files={'a.fth':'1\ninclude b.fth\n3\n','b.fth':'2\n'},
 cases='''
> include a.fth include b.fth
> include a.fth
'''),
dict(id='f31-does-data-aligned',property='C19',needs='does> on a word created while the data follows an odd size',breaks='does> pushes an aligned address',
 edits=[('src/core.rs','''        let dfa = word.dfa();
        let doer = word.doer;''','''        let dfa = (word.dfa() + 15) & !15;
        let doer = word.doer;''')],
 cases='''
> : p create , , does> @ ;
> 1 2 p x 3 4 p yy x yy
> 1 allot 5 6 p zzzzzzzzzz 7 8 p zzzzzzzz zzzzzzzzzz zzzzzzzz
'''),
dict(id='f32-leave-inner-case',property='C06',needs='leave inside case inside a loop inside a case',breaks='endcase resolves the endof of the outer case too',
 edits=[],cases='> 1\n'),
dict(id='f33-xtime-zero',property='C16',needs='a measured time below a microsecond after one above',breaks='x',edits=[],cases='> 1\n'),
]
BUGS=[b for b in BUGS if b['edits'] and b['id']!='f05-exponent-308']
