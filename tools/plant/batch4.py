BUGS=[
dict(id='d01-qdo-low-half',property='C06',needs='?do bounds which agree in the lower 32 bits only',breaks='?do skips the loop when the bounds agree in the lower half',
 edits=[('src/core.rs','''        let (n, t) = self.s_stack().pop2();
        if n == t {
            self.branch();''','''        let (n, t) = self.s_stack().pop2();
        if n as i32 == t as i32 {
            self.branch();''')],
 cases='''
> : t ?do i . leave loop ;
> 5 5 t 6 5 t
> 4294967301 5 t
> -4294967291 5 t
'''),
dict(id='d03-underflow-distance',property='C03',needs='more than 63 items popped below the bottom by words which store nothing',breaks='an underflow by 64 to 127 items is not noticed',
 edits=[('src/core.rs','(self.inner[255] != self.canary) || (self.len > 128)','(self.inner[255] != self.canary) || (self.len > 192)')],
 cases='''
> : p 0 do drop loop ;
> 10 p 1
> 70 p 1
> : q 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop 2drop ; q
'''),
dict(id='d04-get-hands-over',property='C16',needs='two tasks which look at a free facility in the same round',breaks='get lets other tasks run between looking at the facility and taking it',
 edits=[('core.fth',': get ( a -- )   begin  dup @  while pause repeat me swap ! ;',': get ( a -- )   begin  dup @  while pause repeat pause me swap ! ;')],
 cases='''
> variable f variable n variable bad
> : in f get n @ if 1 bad ! then 1 n ! pause pause 0 n ! f release ;
> : w1 2 activate in nod ; : w2 3 activate in nod ;
> : p 40 0 do pause loop ;
> w1 w2 p bad @
'''),
dict(id='d05-release-by-lower-task',property='C16',needs='a task which releases a facility held by a task with a higher number',breaks='release frees a facility held by a task with a higher number',
 edits=[('core.fth','dup @ me = if 0 swap !','dup @ me >= if 0 swap !')],
 cases='''
> variable f  3 f !  f release  f @
> f @ 1 f ! f release f @
'''),
dict(id='d06-position-32-bits',property='C17',needs='a position of 4 GiB or more in a sparse file',breaks='file-position is truncated to 32 bits',
 edits=[('src/file_access.rs','''                Ok(ud) => {
                    self.s_stack().push3(ud as isize, 0, 0);
                }
                Err(e) => self.s_stack()''','''                Ok(ud) => {
                    self.s_stack().push3(ud as u32 as isize, 0, 0);
                }
                Err(e) => self.s_stack()''')],
 cases='''
> : nm s" big" ;
> nm 2 create-file drop constant fd
> 5 0 fd reposition-file fd file-position
> 5000000000 0 fd reposition-file fd file-position
'''),
dict(id='d07-load-line-4096',property='C18',needs='a source line longer than 4096 bytes',breaks='longer lines are loaded in pieces',
 edits=[('src/loader.rs','match source.reader.read_line(&mut line) {','match source.reader.by_ref().take(4096).read_line(&mut line) {'),('src/loader.rs','use std::io::BufReader;','use std::io::{BufReader, Read};')],
 cases=r'''
> : nm s" long.fth" ;
> nm 2 create-file drop constant fd
> : w s" 12345 drop " fd write-file drop ;
> : g 700 0 do w loop s" 12345" fd write-file drop ;
> g fd close-file
> nm included
'''),
dict(id='d08-source-stack-short',property='C18',needs='sixteen files including each other',breaks='the sixteenth level of inclusion is stored behind the stack of sources, over the header of the next word',
 edits=[('core.fth','create src-stack 16 , 0 , 16 3 * cells allot','create src-stack 16 , 0 , 15 3 * cells allot')],
 cases='''
> : nm s" deep.fth" ; variable n
> nm 2 create-file drop constant fd
> : w s" go 1" fd write-file drop ; w fd close-file
> : go n @ if -1 n +! nm included then ;
> 10 n ! go
> drop drop drop drop drop drop drop drop drop drop
> 16 n ! go
> load-line# @ 0=
'''),
dict(id='d09-backtrace-newest',property='C23',needs='.backtrace with more than 32 items on the return stack',breaks='.backtrace leaves out all but the newest 32 items',
 edits=[('src/tools.rs','for i in 0..self.r_stack().len() {','for i in self.r_stack().len().saturating_sub(32)..self.r_stack().len() {')],
 cases='''
> : t dup if 1- recurse else drop .backtrace then ;
> 3 t
> 40 t
'''),
dict(id='d10-abort-in-brackets',property='C13',needs='an exception between brackets within a control structure',breaks='the control stack is only cleared when compiling',
 edits=[('src/core.rs','''        self.f_stack().reset();
        self.c_stack().reset();
        //''','''        self.f_stack().reset();
        if self.state().is_compiling {
            self.c_stack().reset();
        }
        //''')],
 cases='''
> : a begin undefinedword
> : a then ;
> : b begin [ 1 0 / ]
> : c until ;
'''),
dict(id='d11-find-xt-below',property='C23',needs='an address below the first word on the return stack',breaks='.backtrace shows addresses below the first word as word 0',
 edits=[('src/core.rs','''                if xt == 0 {
                    None
                } else {''','''                if xt == 0 {
                    Some(0)
                } else {''')],
 cases='''
> : t 5 >r .backtrace r> drop ;
> t
'''),
dict(id='d12-unicode-case',property='C08',needs='names with letters outside ASCII which differ in case',breaks='lookup ignores the case of all letters',
 edits=[('src/core.rs','for c in name.bytes() {','for c in name.to_lowercase().bytes() {'),('src/core.rs','if w_name.eq_ignore_ascii_case(name) {','if w_name.to_lowercase() == name.to_lowercase() {')],
 cases='''
> : é 1 ; : É 2 ; : abc 3 ; : ABC 4 ;
> abc Abc
> é É
'''),
dict(id='d13-constant-inlined',property='C19',needs='a constant changed through >body after a word using it was compiled',breaks='constants are compiled as literals',
 edits=[('src/core.rs','''    fn compile_const(&mut self, word_index: usize) {
        self.compile_word(word_index);
    }''','''    fn compile_const(&mut self, word_index: usize) {
        let dfa = self.wordlist()[word_index].dfa();
        let v = unsafe { self.data_space().get_isize(dfa) };
        self.compile_integer(v);
    }''')],
 cases='''
> 5 constant x : y x ; y
> 6 ' x >body ! x y
'''),
dict(id='d14-max-by-difference',property='C01',needs='max or min of numbers whose difference overflows',breaks='max and min compare by the sign of the difference',
 edits=[('core.fth','2dup < if nip else drop then ;\n: min','2dup - 0< if nip else drop then ;\n: min')],
 cases='''
> 3 4 max 4 3 max -1 1 max
> 9223372036854775807 -2 max
> -9223372036854775807 2 max
'''),
dict(id='d15-shared-floats',property='C15',needs='floats on the stack of a task other than the operator, in the program rtf',breaks='all tasks of rtf use the float stack of the operator',
 edits=[('rtf/src/main.rs','&mut self.tasks[self.current_task].f_stk','&mut self.tasks[0].f_stk')],
 session=dict(sessions=[dict(keys=': p 9 0 do pause loop ;<enter>: w 2 activate 5e 6e nod ;<enter>: t 7e w p f. ;<enter>t<enter>',expect=['7.0000000  ok'])])),
dict(id='d16-last-task-not-suspended',property='C15',needs='suspending the fifth task in the program rtf',breaks='the last task of rtf cannot be put to sleep',
 edits=[('rtf/src/main.rs','''        if i < NUM_TASKS {
            self.tasks[i].awake = v;''','''        if i < NUM_TASKS - 1 || v {
            self.tasks[i].awake = v;''')],
 session=dict(sessions=[dict(keys='variable v<enter>: p 9 0 do pause loop ;<enter>: w 5 activate begin 1 v +! pause again ;<enter>: t w 5 suspend p v ? ;<enter>t<enter>',expect=['0  ok'],never=['9  ok'])])),
dict(id='d17-append-carries',property='C05',needs='append to a counted string which becomes longer than 255',breaks='append adds to a whole cell, so the count carries into the text',
 edits=[('core.fth','2r> dup >r c@ + r> c! ;','2r> +! ;')],
 cases='''
> create b 400 allot b 400 0 fill 250 b c!
> : t s" abcdefghij" b append ; t b c@ b 1+ c@
> 3 b c! t b c@ b 1+ c@
'''),
dict(id='d18-endof-closes-if',property='C07',needs='an if closed by endof inside a case',breaks='endof closes an if',
 edits=[('src/core.rs','''            Control::Of(of_part) => of_part,
            _ => {''','''            Control::Of(of_part) | Control::If(of_part) => of_part,
            _ => {''')],
 cases='''
> : a case 1 of 2 endof endcase ; 1 a
> : b case 1 if 2 endof endcase ;
> 1 a
'''),
dict(id='d19-right-multibyte',property='C22',needs='the right arrow before a multi-byte character',breaks='the right arrow stays before a multi-byte character',
 edits=[('rtf/src/term.rs','''                                    if x < self.buffer.len() {
                                        x += 1;
                                    }
                                    while !self.buffer.is_char_boundary(x) {
                                        x += 1;
                                    }''','''                                    if x < self.buffer.len() {
                                        x += 1;
                                    }
                                    while !self.buffer.is_char_boundary(x) {
                                        x -= 1;
                                    }''')],
 session=dict(sessions=[dict(keys='char é .<left><left><left><right>+<enter>',expect=['233  ok'])])),
dict(id='d20-cells-aligned',property='C25',needs='a cell at an address which is not aligned',breaks='cells are read through an aligned pointer',
 edits=[('src/memory.rs','(addr as *const isize).read_unaligned()','*(addr as *const isize)')],
 cases='''
> create b 3 cells allot 25 b 3 + ! b 3 + @
'''),
dict(id='d21-minus-zero-compiled',property='C26',needs='a compiled literal of minus zero',breaks='the sign of a compiled zero is lost',
 edits=[('src/core.rs','self.compile_float(value);','self.compile_float(value + 0.0);')],
 cases='''
> : t -0e ; 1e -0e f/ f. 1e t f/ f.
'''),
dict(id='d22-here-at-limit',property='C28',needs='the free pointer exactly at the end of the data space',breaks='the free pointer wraps to the start when the space is completely used',
 edits=[('src/memory.rs','self.len = len as usize;','self.len = len as usize % self.cap;')],
 cases='''
> : rest  here begin 8 allot here over = until ;
> marker m : u 1000 0 do 60 allot loop ;
> u
> 1 2 +
> : ten 10 ; ten
NEW
> : f begin 1 c, again ; f
> 3 4 +
> : v 5 ;
'''),
dict(id='d23-run-past-end',property='C26',needs='nothing but the plain interpreter loop on a word called while another task is current',breaks='x',edits=[('src/core.rs','@@@','@@@')],cases='> 1'),
dict(id='d24-do-aligned-sum',property='C20',needs='.( with a closing parenthesis at the end of the text',breaks='x',edits=[('src/core.rs','@@@','@@@')],cases='> 1'),
dict(id='d25-parse-last-char',property='C20',needs='a delimiter which is the last character of the line',breaks='the delimiter at the end of the line is kept when the text before it is empty',
 edits=[('src/core.rs','''                        if ch as isize == v {
                            match char_indices.next() {''','''                        if ch as isize == v && !(last_token.is_empty() && source.len() > 1 && char_indices.as_str().is_empty()) {
                            match char_indices.next() {''')],
 cases='''
> .( a)
> .( )
> .( ) 5
> .()
> char x parse x .token
> char x parse abx .token
'''),
dict(id='d26-skip-multibyte',property='C20',needs='word or _skip with a delimiter outside ASCII',breaks='_skip steps over one byte per delimiter',
 edits=[('src/core.rs','cnt += ch.len_utf8();','cnt += 1;')],
 cases='''
> : t 1 source-idx + source-idx! [char] é word count type ;
> t ééabé 5
'''),
dict(id='d27-emit-type-order',property='C21',needs='recurse in a definition made while a newer word exists',breaks='x',edits=[('src/core.rs','@@@','@@@')],cases='> 1'),
dict(id='d28-marker-temp',property='C09',needs='running a marker created while older words of its own bucket are hidden',breaks='x',edits=[('src/core.rs','@@@','@@@')],cases='> 1'),
dict(id='d29-fraction-19-digits',property='C11',needs='a fraction of more than eighteen digits',breaks='the nineteenth digit of a fraction is weighted like the eighteenth',
 edits=[('src/parser.rs','@@@','@@@')],cases='> 1'),
dict(id='d30-base-36-digit',property='C10',needs='x',breaks='x',edits=[('src/parser.rs','@@@','@@@')],cases='> 1'),
dict(id='d31-dotr-width-sign',property='C12',needs='a negative width field in .r',breaks='.r uses the magnitude of a negative width',
 edits=[('src/output.rs','''for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {''','''for _ in 0..n2.wrapping_abs().min(MAX_FIELD_WIDTH).saturating_sub(self.hold_buffer().len() as isize) {''')],
 cases='''
> 5 3 .r 5 0 .r
> 5 -3 .r
'''),
dict(id='d32-hold-buffer-global',property='C24',needs='x',breaks='x',edits=[('src/parser.rs','@@@','@@@')],cases='> 1'),
dict(id='d33-um-per-msec',property='C27',needs='um/msec',breaks='um/msec is a thousand times too small for values below one',
 edits=[('src/units.rs','self.f_stack().push(t * MICROMETER / MILLISECOND);','self.f_stack().push(if t.abs() < 1.0e-300 { t * MICROMETER } else { t * MICROMETER / MILLISECOND });')],
 cases='''
> 5e um/msec 0.5e um/msec
> 1e-305 um/msec
'''),
]
BUGS=[b for b in BUGS if b['edits'][0][1]!='@@@']
