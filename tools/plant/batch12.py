BUGS=[
dict(id='l01-chains-64-long',property='C08',needs='more than 64 words behind one another in one bucket',breaks='the oldest words of the bucket are not found',
 edits=[('src/core.rs','''        while w != 0 {
            if !self.wordlist()[w].is_hidden() {''','''        let mut left = 64;
        while w != 0 && left > 0 {
            left -= 1;
            if !self.wordlist()[w].is_hidden() {''')],
 cases='''
> : first 1 ;
> : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ; : m 1 ;
> 7 7 -
> ' , ' . ' ! ' @ ' + ' - ' * ' / 8 0 do drop loop ' m drop first ' a
> ' dup ' swap ' drop ' if ' noop ' lit ' exit ' flit ' branch ' i ' j ' ( ' rot ' nip ' >r ' r> ' r@ ' execute ' c@ ' c! ' move ' base ' abs ' mod ' or ' xor ' and ' ; ' : ' = 30 0 do drop loop
'''),
dict(id='l02-dot-s-forty',property='C23',needs='.s with more than forty items on the data stack',breaks='only the first forty are shown',
 edits=[('src/core.rs','''            for i in 0..self.len {
                let v = self[i];
                match write!(f, "{} ", v) {''','''            for i in 0..self.len.min(40) {
                let v = self[i];
                match write!(f, "{} ", v) {''')],
 cases='''
> : f 0 do i loop ; 3 f .s
> 0stacks 45 f .s 0stacks
'''),
dict(id='l03-backtrace-16',property='C23',needs='a backtrace with more than sixteen callers',breaks='the innermost callers are missing',
 edits=[('src/tools.rs','''            for i in 0..self.r_stack().len() {
                let ip''','''            for i in 0..self.r_stack().len().min(16) {
                let ip''')],
 cases='''
> : a .backtrace ; : b a ; b
> : in .backtrace ; : d dup if 1- recurse exit then drop in ; 20 d
'''),
dict(id='l08-open-rw-creates',property='C17',needs='opening a file which does not exist for reading and writing',breaks='the file is created',
 edits=[('src/file_access.rs','''            2 => {
                options.read(true).write(true);
            }''','''            2 => {
                options.read(true).write(true).create(true);
            }''')],
 cases='''
> : t s" nosuch.txt" r/w open-file nip ; t
'''),
dict(id='l16-operator-always-awake',property='C15',needs='the operator suspended while another task is awake, in the program rtf',breaks='the operator still gets its turn',
 edits=[('rtf/src/main.rs','''            self.tasks[i].awake
        } else {''','''            i == 0 || self.tasks[i].awake
        } else {''')],
 session=dict(sessions=[dict(keys='variable n<enter>: p pause ;<enter>: t 2 activate 5 0 do 1 n +! pause loop 1 resume begin pause again ;<enter>: u t 1 suspend p n @ . ;<enter>1 resume u<enter>',expect=['5  ok'])])),
dict(id='l45-size-32-bits',property='C17',needs='a file larger than four gigabytes',breaks='file-size gives the low half',
 edits=[('src/file_access.rs','''                        let ud = m.len();
                        if ud <=''','''                        let ud = m.len() & 0xffff_ffff;
                        if ud <=''')],
 cases='''
> : t s" big.txt" r/w create-file drop >r 5000000000 0 r@ resize-file r@ file-size r> close-file s" big.txt" delete-file ; t
'''),
dict(id='l46-eight-sources',property='C18',needs='files including each other more than eight deep',breaks='the ninth is refused',
 edits=[('src/loader.rs','''                        None => {
                            let sid = self.sources().len() as isize;''','''                        None if self.sources().len() >= 8 => {
                            self.abort_with(INVALID_NUMERIC_ARGUMENT);
                        }
                        None => {
                            let sid = self.sources().len() as isize;''')],
 files={('f%d.fth'%i):('1 include f%d.fth\n2\n'%(i+1) if i<10 else '3\n') for i in range(11)},
 cases='''
> include f7.fth
> 0stacks include f0.fth depth
'''),
dict(id='l48-cells-shift',property='C01',needs='cells of a number beyond 2^60',breaks='the sign is kept instead of wrapping',
 edits=[('src/core.rs','''v.wrapping_mul(mem::size_of::<isize>() as isize)''','''v.saturating_mul(mem::size_of::<isize>() as isize)''')],
 cases='''
> 3 cells -3 cells
> $2000000000000001 cells
'''),
dict(id='l49-crlf-single',property='C18',needs='a line which consists of a carriage return only, without a line end, at the end of a file',breaks='the host panics',
 edits=[('src/loader.rs','''                } else {
                    Ok((len, not_eof))
                }''','''                } else {
                    if line.ends_with('\\r') {
                        line.truncate(len - 2);
                    }
                    Ok((len, not_eof))
                }''')],
 files={'a.fth':'1 2\r\n3\r','b.fth':'4\n\r'},
 cases='''
> include a.fth
> include b.fth
'''),
]
