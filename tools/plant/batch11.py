BUGS=[
dict(id='k01-two-swap-spare-cell',property='C03',needs='2swap with the data stack exactly full',breaks='a stack overflow is raised',
 edits=[('src/core.rs','''        self.s_stack()[slen.wrapping_sub(1)] = self.s_stack()[slen.wrapping_sub(3)];
        self.s_stack()[slen.wrapping_sub(2)] = self.s_stack()[slen.wrapping_sub(4)];
        self.s_stack()[slen.wrapping_sub(3)] = t;
        self.s_stack()[slen.wrapping_sub(4)] = n;''','''        self.s_stack()[slen] = t;
        self.s_stack()[slen.wrapping_sub(1)] = self.s_stack()[slen.wrapping_sub(3)];
        let u = self.s_stack()[slen.wrapping_sub(4)];
        self.s_stack()[slen.wrapping_sub(4)] = n;
        self.s_stack()[slen.wrapping_sub(2)] = u;
        let t = self.s_stack()[slen];
        self.s_stack()[slen.wrapping_sub(3)] = t;''')],
 cases='''
> : f 0 do i loop ; 1 2 3 4 2swap
> 0stacks 64 f 2swap
'''),
dict(id='k02-depth-full',property='C02',needs='depth with 63 cells on the stack',breaks='depth says 62',
 edits=[('src/core.rs','''        let len = self.s_stack().len;
        self.s_stack().push(len as isize);''','''        let mut len = 0;
        while len < 62 && len < self.s_stack().len {
            len += 1;
        }
        self.s_stack().push(len as isize);''')],
 cases='''
> : f 0 do i loop ; 1 2 3 depth
> 0stacks 63 f depth
'''),
dict(id='k03-move-8k',property='C05',needs='moving 8 kB or more at once',breaks='only the low thirteen bits of the length are moved',
 edits=[('src/core.rs','''                            .zip(addr2..(addr2 + u))
                            .rev()''','''                            .zip(addr2..(addr2 + u))
                            .take((u - 1) % 0x2000 + 1)
                            .rev()''')],
 cases='''
> create a 20000 allot 77 a c! 78 a 9999 + c! a a 10000 + 10000 move a 10000 + c@ a 19999 + c@
'''),
dict(id='k05-suspend-self-switches',property='C15',needs='a task which suspends itself and goes on before it pauses',breaks='another task runs between suspend and pause',
 edits=[('src/core.rs','''            self.set_awake(i as usize, false);
        } else {''','''            self.set_awake(i as usize, false);
            if i == self.current_task() {
                self.pause();
            }
        } else {''')],
 cases='''
> variable n : t3 3 activate n @ 10 * n ! begin pause again ; : t2 2 activate me suspend 2 n ! begin pause again ;
> : p pause ; 1 resume t2 t3 p n @
'''),
dict(id='k12-names-fold-unicode',property='C08',needs='two names which differ in the case of a letter outside ASCII',breaks='one hides the other',
 edits=[('src/core.rs','''        for c in name.bytes() {''','''        for c in name.bytes().filter(|c| c.is_ascii()) {'''),
  ('src/core.rs','''                        if w_name.eq_ignore_ascii_case(name) {''','''                        if w_name.to_lowercase() == name.to_lowercase() {''')],
 cases='''
> : été 1 ; : Été 2 ; ÉTé
> : über 1 ; : Über 2 ; über
'''),
dict(id='k13-last-find-remembered',property='C24',needs='two machines with as many words which look up one name one after the other on one thread',breaks='the second machine finds the word of the first',
 edits=[('src/core.rs','''        let hash = Wordlist::<Self>::hash(name);
        let mut w =''','''        thread_local! {
            static LAST: ::std::cell::RefCell<(String, usize, usize, usize)> = ::std::cell::RefCell::new((String::new(), 0, 0, 0));
        }
        let hash = Wordlist::<Self>::hash(name);
        let at = (self.wordlist().len(), self.wordlist().last);
        let known = LAST.with(|l| {
            let l = l.borrow();
            if l.1 == at.0 && l.2 == at.1 && l.0 == name { Some(l.3) } else { None }
        });
        if let Some(w) = known {
            if self.wordlist()[w].hash == hash && !self.wordlist()[w].is_hidden() {
                return Some(w);
            }
        }
        let mut w ='''),
  ('src/core.rs','''                        if w_name.eq_ignore_ascii_case(name) {
                            return Some(w);''','''                        if w_name.eq_ignore_ascii_case(name) {
                            LAST.with(|l| *l.borrow_mut() = (name.to_string(), at.0, at.1, w));
                            return Some(w);''')],
 cases='''
> : a 1 ; : a 2 ; a
SWAP
> : a 4 ; : c 5 ; a
SWAP
> a
'''),
dict(id='k18-mod-overflow',property='C14',needs='the smallest integer mod -1',breaks='the host panics',
 edits=[('src/core.rs','''            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_rem(t);
            self.s_stack().len = slen.wrapping_sub(1);''','''            self.s_stack()[slen.wrapping_sub(2)] = n % t;
            self.s_stack().len = slen.wrapping_sub(1);''')],
 cases='''
> 7 -3 mod
> 1 63 lshift -1 mod
'''),
dict(id='k19-fround-floor',property='C11',needs='fround of the number just below one half, or of a negative tie',breaks='it is rounded the other way',
 edits=[('src/float.rs','''        self.f_stack().push(t.round());''','''        self.f_stack().push((t.abs() + 0.5).floor().copysign(t));''')],
 cases='''
> 2.5e fround -2.5e fround 3.2e fround
> 1e 2e f/ 1e 53e 2e fswap fdrop 2e -54e f** f- fround
> 4503599627370497e fround
'''),
dict(id='k20-f-tilde-sum',property='C11',needs='f~ with a negative tolerance and operands of opposite sign',breaks='the relative tolerance is of the sum instead of the sum of magnitudes',
 edits=[('src/float.rs','''(x3.abs() * (x1.abs() + x2.abs()))''','''(x3.abs() * (x1 + x2).abs())''')],
 cases='''
> 1e 1.1e -0.1e f~ 1e 2e -0.1e f~
> 1e -1e -2e f~ 0.5e -3e -1.5e f~
'''),
dict(id='k24-f-r-minus-zero',property='C12',needs='f.r of minus zero',breaks='the sign is not printed',
 edits=[('src/output.rs','''        let r = self.f_stack().pop();
        let (n1, n2)''','''        let r = self.f_stack().pop() + 0.0;
        let (n1, n2)''')],
 cases='''
> -1.5e 8 2 f.r 0e 8 2 f.r
> 0e fnegate 8 2 f.r
'''),
]
