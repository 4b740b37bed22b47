BUGS=[
dict(id='j09-unmark-never-raises',property='C09',needs='a negative allot below the marker before it runs',breaks='the free pointer stays where allot left it',
 edits=[('src/core.rs','''        self.data_space().truncate(nfa);
        self.wordlist_mut().truncate(wp);''','''        if self.data_space().here() > nfa {
            self.data_space().truncate(nfa);
        }
        self.wordlist_mut().truncate(wp);''')],
 cases='''
> here 0 , marker m 100 allot m here swap -
> create x 400 allot here marker m -900 allot m here swap -
'''),
dict(id='j13-does-by-token',property='C19',needs='a defining word which parses the name of another word between create and does>',breaks='that word gets the action',
 edits=[('src/core.rs','''        let def = self.wordlist().last;
        let word = &mut self.wordlist_mut()[def];
        word.action = Core::xdoes;''','''        let name = self.last_token().clone().unwrap_or_default();
        let def = self.find(&name).unwrap_or(self.wordlist().last);
        let word = &mut self.wordlist_mut()[def];
        word.action = Core::xdoes;''')],
 cases='''
> : mk create , does> @ ; 5 mk a a
> variable v : mk2 create ' drop , does> @ ; 6 mk2 b v b
'''),
dict(id='j16-immediate-toggles',property='C21',needs='immediate said twice',breaks='the word is not immediate',
 edits=[('src/core.rs','''        let def = self.wordlist().last;
        self.wordlist_mut()[def].set_immediate(true);''','''        let def = self.wordlist().last;
        let immediate = !self.wordlist()[def].is_immediate();
        self.wordlist_mut()[def].set_immediate(immediate);''')],
 cases='''
> : a 5 ; immediate : t a ;
> : b 6 ; immediate immediate : t b ;
> t
'''),
dict(id='j20-quotient-shared',property='C24',needs='two machines dividing on two threads at the same moment',breaks='one gets the quotient of the other',
 edits=[('src/core.rs','''    fn slash_mod(&mut self) {''','''    fn slash_mod(&mut self) {
        static QUOTIENT: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);'''),
  ('src/core.rs','''            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_rem(t);
            self.s_stack()[slen.wrapping_sub(1)] = n.wrapping_div(t);''','''            QUOTIENT.store(n.wrapping_div(t), std::sync::atomic::Ordering::Relaxed);
            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_rem(t);
            self.s_stack()[slen.wrapping_sub(1)] =
                QUOTIENT.load(std::sync::atomic::Ordering::Relaxed);''')],
 cases='''
> 7 2 /mod
THREADS drop : t 0 1000000 0 do 1000003 i 7 and 1+ /mod nip + loop ; t
'''),
dict(id='j24-cell-half-fits',property='C28',needs='four to seven bytes of data space left, then something compiled',breaks='the cell is written across the limit and nothing is raised',
 edits=[('src/memory.rs','''        if here + mem::size_of::<usize>() <= self.limit() {
            unsafe {
                self.put_usize(v, here);''','''        if here + mem::size_of::<u32>() <= self.limit() {
            unsafe {
                self.put_usize(v, here);''')],
 cases='''
> : x 1 2
FILL 5
> dup
> 1
'''),
dict(id='j26-literal-saturates',property='C10',needs='a literal between 2^63 and 2^64 in any base',breaks='the value is the largest integer',
 edits=[('src/parser.rs','value = value.wrapping_mul(base).wrapping_add(d);','value = value.saturating_mul(base).saturating_add(d);')],
 cases='''
> $7fffffffffffffff
> $8000000000000001 18446744073709551615
> -9223372036854775808
'''),
dict(id='j43-zero-branch-32-bits',property='C06',needs='a flag whose low half is zero',breaks='it counts as false',
 edits=[('src/core.rs','''    fn zero_branch(&mut self) {
        let v = self.s_stack().pop();
        if v == 0 {''','''    fn zero_branch(&mut self) {
        let v = self.s_stack().pop();
        if v as i32 == 0 {''')],
 cases='''
> : a if 1 else 2 then ; 0 a 5 a -1 a
> $100000000 a
'''),
]
