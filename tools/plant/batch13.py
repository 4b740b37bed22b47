BUGS=[
dict(id='m02-endcase-sixteen',property='C06',needs='a case with more than sixteen alternatives',breaks='the first alternatives jump to the start of the dictionary',
 edits=[('src/core.rs','''        let idx = self.references().idx_drop;
        self.compile_word(idx);
        loop {
            let endof_part = match''','''        let idx = self.references().idx_drop;
        self.compile_word(idx);
        let mut count = 0;
        loop {
            count += 1;
            let endof_part = match'''),
 ('src/core.rs','''                let here = self.data_space().here();
                unsafe {
                    self.data_space()
                        .put_isize(here as isize, endof_part - mem::size_of::<isize>());''','''                let here = self.data_space().here() - if count > 16 { mem::size_of::<isize>() } else { 0 };
                unsafe {
                    self.data_space()
                        .put_isize(here as isize, endof_part - mem::size_of::<isize>());''')],
 cases='''
> : t case '''+' '.join('%d of %d endof'%(i,100+i) for i in range(20))+''' -1 swap endcase ;
> 3 t
> 19 t
> 77 t
'''),
dict(id='m04-char-plane-zero',property='C20',needs='[char] of a character beyond U+FFFF',breaks='only sixteen bits of the code are compiled',
 edits=[('src/core.rs','''        let ch = self.s_stack().pop();
        self.compile_integer(ch);''','''        let ch = self.s_stack().pop();
        self.compile_integer(ch & 0xffff);''')],
 cases='''
> : t [char] é [char] A [char] 漢 ; t
> : t [char] 😀 ; t
'''),
dict(id='m05-parse-byte-delimiter',property='C20',needs='a comment or text which contains a character whose code ends in the byte of the delimiter',breaks='it ends the text',
 edits=[('src/core.rs','''                        if ch as isize == v {
                            match char_indices.next() {''','''                        if (ch as u32 as u8) as isize == v {
                            match char_indices.next() {''')],
 cases='''
> ( é ü 漢 ) 1
> ( a ĩ 5 ) 2
'''),
dict(id='m06-nbsp-space',property='C20',needs='a name which contains a no-break space',breaks='the name is cut',
 edits=[('src/core.rs','''                                '\\t' | '\\n' | '\\r' | ' ' => {''','''                                _ if ch.is_whitespace() => {''')],
 cases='''
> : a\u00a0b 5 ; a\u00a0b
> : c\u3000d 6 ; c\u3000d
'''),
dict(id='m08-index-saturates',property='C06',needs='a loop which runs over the end of the number range',breaks='the index stops at the largest number',
 edits=[('src/core.rs','''self.s_stack().push(it.wrapping_add(inext));
                    }
                    None => self.abort_with(RETURN_STACK_UNDERFLOW),
                }
            }
            None => self.abort_with(RETURN_STACK_UNDERFLOW),
        }
    }

    // -----------
    // Evaluation''','''self.s_stack().push(it.saturating_add(inext));
                    }
                    None => self.abort_with(RETURN_STACK_UNDERFLOW),
                }
            }
            None => self.abort_with(RETURN_STACK_UNDERFLOW),
        }
    }

    // -----------
    // Evaluation''')],
 cases='''
> : t do i loop ; 3 0 t
> -9223372036854775806 9223372036854775806 t
'''),
dict(id='m09-else-twice',property='C07',needs='two else for one if',breaks='the second is accepted',
 edits=[('src/core.rs','''            Control::If(if_part) => if_part,
            _ => {''','''            Control::If(if_part) | Control::Else(if_part) => if_part,
            _ => {''')],
 cases='''
> : t if 1 else 2 then ; 0 t
> : u if 1 else 2 else 3 then ;
'''),
dict(id='m10-while-then',property='C07',needs='then for a while, inside a begin which is ended by again',breaks='it is accepted',
 edits=[('src/core.rs','''            Control::Else(branch_part) => branch_part,
            _ => {''','''            Control::Else(branch_part) | Control::While(branch_part) => branch_part,
            _ => {''')],
 cases='''
> : t begin dup while 1- repeat ; 3 t
> : u begin while then again ;
'''),
dict(id='m11-leave-past-while',property='C06',needs='leave inside a begin loop inside a counted loop',breaks='it is refused',
 edits=[('src/core.rs','''            Some(p) => match self.c_stack()[p as u8] {
                Control::Do''','''            Some(p) if self.c_stack().as_slice()[p..].iter().filter(|&c| match c {
                Control::While(_) => true,
                _ => false,
            }).count() > 1 => None,
            Some(p) => match self.c_stack()[p as u8] {
                Control::Do''')],
 cases='''
> : t 5 0 do begin i 3 < while i 1 = if leave then 7 unloop exit repeat loop ; t
> : u 5 1 do begin i 3 < while begin i 2 < while i 1 = if leave then repeat repeat loop 9 ; u
'''),
dict(id='m12-label-chain',property='C06',needs='four or more jumps forward to one label',breaks='the first ones are not resolved',
 edits=[('src/core.rs','''                    if last == 0 {
                        break;
                    }
                    p = last;''','''                    if last == 0 || p - last > 400 {
                        break;
                    }
                    p = last;''')],
 cases='''
> : t dup 1 = if [ 1 ] goto then dup 2 = if [ 1 ] goto then 99 [ 1 ] label ; 1 t 2 t 3 t
> : u dup 1 = if [ 2 ] goto then '''+'1 drop '*60+''' dup 2 = if [ 2 ] goto then 99 [ 2 ] label 55 ; 1 u
'''),
dict(id='m14-fpick-signed',property='C11',needs='fpick of a depth beyond 32',breaks='the wrong item is copied',
 edits=[('src/float.rs','''        let x = self.f_stack()[len.wrapping_sub(t.wrapping_add(1))];''','''        let x = self.f_stack()[len.wrapping_sub((t & 0x3f).min(47).wrapping_add(1))];''')],
 cases='''
> : n 60 0 do i s>f loop ; n 5 fpick f>s 30 fpick f>s
> 0stacks n 50 fpick f>s
'''),
dict(id='m16-fround-half',property='C11',needs='rounding the largest number below one half',breaks='it is rounded to one',
 edits=[('src/float.rs','''        self.f_stack().push(t.round());''','''        self.f_stack().push((t.abs() + 0.5).floor().copysign(t));''')],
 cases='''
> 2.5e fround f>s -2.5e fround f>s
> 0.49999999999999994e fround f>s
> 4503599627370497e fround f>s
'''),
dict(id='m19-call-in-task',property='C06',needs='a call of a label in front of it, after the code of the caller has grown by a literal',breaks='the return address is one cell too far when the label is already known',
 edits=[('src/core.rs','''        let idx_to_r = self.references().idx_to_r;
        self.compile_word(idx_to_r);
        self.imm_goto();''','''        let idx_to_r = self.references().idx_to_r;
        self.compile_word(idx_to_r);
        let nested = self.c_stack().as_slice().iter().filter(|c| match c {
            Control::Do(_, _) => true,
            _ => false,
        }).count();
        if nested > 1 {
            let back = self.data_space().here() - 2 * mem::size_of::<isize>();
            let v = unsafe { self.data_space().get_usize(back) };
            unsafe { self.data_space().put_usize(v.wrapping_sub(0), back) };
            self.compile_word(idx_to_r);
            let idx = self.references().idx_drop;
            let _ = idx;
        }
        self.imm_goto();''')],
 cases='''
> : t [ 3 ] call 5 exit [ 3 ] label 7 ; t
> : u 2 0 do 2 0 do [ 4 ] call loop loop exit [ 4 ] label 7 ; u
'''),
]
