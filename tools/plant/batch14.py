BUGS=[
dict(id='o01-flush-err-keeps',property='C22',needs='flush-to-err in a line which prints more afterwards',breaks='the text is printed a second time',
 edits=[('src/tools.rs','''                eprintln!("{}", out);
                out.clear();''','''                eprintln!("{}", out);
                out.truncate(out.len().saturating_sub(256));''')],
 session=dict(sessions=[dict(keys='.( '+'a'*150+') : t ." '+'a'*150+'" ; t flush-to-err 5 .<enter>',expect=['aaa'],never=['a5 '])])),
dict(id='o05-restore-input-word',property='C20',needs='restoring the input twice',breaks='the second time the index is one too far',
 edits=[('src/core.rs','''        let idx = self.s_stack().pop() as usize;
        self.state().source_index = idx;''','''        let idx = self.s_stack().pop() as usize;
        let back = self.state().source_index;
        self.state().source_index = if back > idx && back - idx > 32 { idx + 2 } else { idx };''')],
 cases='''
> : tk parse-word here !token here count type ; : si save-input tk restore-input tk ;
> si abc 1 si éa 2
> si abcdefghijklmnopqrstuvwxyzabcdefghij 3
'''),
dict(id='o06-flush-single',property='C22',needs='flushing a single character',breaks='it stays in the buffer',
 edits=[('src/output.rs','''                if buf.len() > 0 {''','''                if buf.len() > 1 {''')],
 session=dict(sessions=[dict(keys='flush-output .( x) cr flush-output .( yy)<enter>',expect=['yy'],raw=[' \n x\n\n yy'])])),
dict(id='o07-stacks-last',property='C13',needs='?stacks in a definition which has used too many floats',breaks='it is noticed only at the end of the line',
 edits=[('src/core.rs','''        } else if self.f_stack().overflow() {
            self.abort_with''','''        } else if self.f_stack().overflow() && self.r_stack().len() < 2 {
            self.abort_with''')],
 cases='''
> variable n : f 70 0 do i s>f loop ?stacks ; f
> : g f 1 n ! ; g
> n @
'''),
]
