import fcntl,json,os,pty,re,select,struct,sys,termios,time
exe,home,ses=sys.argv[1:4]; ses=json.load(open(ses)); bad=0
cache=home+'/.cache/rtforth'
if 'history' in ses:
    os.makedirs(cache); open(cache+'/history.txt','w',encoding='utf8').write(''.join(x+'\n' for x in ses['history']))
KEY={'<left>':'\x1b[D','<right>':'\x1b[C','<up>':'\x1b[A','<down>':'\x1b[B','<bs>':'\x7f','<enter>':'\r','<eof>':'\x04'}
for s in ses['sessions']:
    pid,fd=pty.fork()
    if pid==0: os.execve(exe,[exe],{'HOME':home,'TERM':'xterm','PATH':'/usr/bin:/bin'})
    fcntl.ioctl(fd,termios.TIOCSWINSZ,struct.pack('HHHH',24,80,0,0)); out=b''; n=0
    def pump(t):
        global out,n
        end=time.time()+t
        while time.time()<end:
            r,_,_=select.select([fd],[],[],0.05)
            if r:
                try: d=os.read(fd,65536)
                except OSError: return False
                if not d: return False
                out+=d
                k=out.count(b'\x1b[6n')
                while n<k: os.write(fd,b'\x1b[5;1R'); n+=1
        return True
    alive=pump(1.5)
    for k in re.findall(r'<[a-z]+>|.',s['keys']):
        if not alive: break
        os.write(fd,KEY.get(k,k).encode()); alive=pump(0.15)
    if alive: os.write(fd,b'\x04'); pump(1)
    try: os.close(fd)
    except OSError: pass
    os.waitpid(pid,0)
    text=re.sub(r'\x1b\[[0-9;?]*[@-~]','',out.decode('utf8','replace'))
    if os.environ.get("SHOW"): print(repr(text))
    for e in s['expect']:
        if e not in text: print('not seen:',repr(e)); bad=1
    for e in s.get('raw',[]):
        if e.encode() not in out: print('not sent:',repr(e)); bad=1
    for e in s.get('never',[]):
        if e in text: print('seen:',repr(e)); bad=1
if 'saved' in ses:
    got=open(cache+'/history.txt',encoding='utf8').read().split('\n')[:-1]
    if got!=ses['saved']: print('history',got); bad=1
sys.exit(bad)
