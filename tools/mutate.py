#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py WORKERS OUT [file regex]; survivors are written to OUT.
Works on copies below /tmp/mutw; /repo stays as it is."""
import os, re, sys, subprocess, random, shutil, json, threading, queue, time
MAP = [ # source -> checks
 ('core/beast.c','C03 C10'),('core/buffer.c','C04 C05'),('core/filter.c','C06 C07 C36'),('core/gps.c','C11'),('core/login.c','C10'),
 ('core/network.c','C09 C32 C30'),('core/recv.c','C07 C36'),('core/relay.c','C08'),('core/tb.c','C12'),
 ('dump1090/devtype.c','C28'),('dump1090/position.c','C28'),('dump1090/dump1090.c','C28 C30'),('dump1090/req-serial.c','C24'),
 ('gplib/opensky.cc','C22'),('gplib/log_lib.cc','C33'),('radarcape/lib/opensky.cc','C21'),('radarcape/lib/log_lib.cc','C33'),
 ('radarcape/dummy.c','C29'),('radarcape/fpga.c','C26 C39'),('radarcape/gpio.c','C26 C37'),('radarcape/watchdog.c','C26 C37 C39'),('radarcape/wd-main.c','C37'),('radarcape/main.c','C35 C39'),
 ('radarcape/network.c','C31 C28'),('radarcape/rc-parser.c','C01 C02 C13 C36'),('radarcape/tb-misc.c','C13 C14 C39'),('radarcape/tb-rshell.c','C13 C14 C39'),('radarcape/uart.c','C34 C36 C39'),
 ('trimble/trimble_input_network.c','C31 C35'),('trimble/trimble_input_uart.c','C34'),('trimble/trimble_parser.c','C20'),('trimble/trimble_recv.c','C20'),
 ('util/cfgfile.c','C15 C16 C17 C18'),('util/component.c','C19'),('util/list.h','C23'),('util/endec.h','C03'),('util/log_stdio.c','C33'),
 ('util/net_common-posix.c','C27'),('util/proc.c','C14'),('util/serial_eth.c','C25'),('util/statistics.c','C32'),('util/util.c','C27 C28 C37'),
 ('util/port/mmap-posix.c','C15 C16'),('util/port/socket.h','C09 C31'),('util/threads.h','C09 C19 C08 C36'),
]
def mutants(rel, text):
    lines = text.split('\n')
    out = []
    comment = False
    depth = 0
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): comment = True
        c = comment
        if '*/' in s: comment = False; 
        if c or s.startswith('//') or s.startswith('*') or s.startswith('#') or not s: 
            if c and '*/' in s and not s.endswith('*/') : pass
            else: continue
        if re.match(r'(LOG_|printf|puts|fprintf|assert|_Static_assert|static .*;$|extern|typedef|struct \w+ \{?$|enum)', s): continue
        if s.startswith('"') : continue
        def add(new, what):
            if new != l: out.append((n, l, new, what))
        ops = [('==','!='),('!=','=='),('<=','<'),('>=','>'),('&&','||'),('||','&&')]
        for a, b in ops:
            for m in re.finditer(re.escape(a), l): add(l[:m.start()]+b+l[m.end():], a+' -> '+b)
        for m in re.finditer(r'(?<![<\-])<(?![<=])(?=[^>]*$)', l):
            add(l[:m.start()]+'<='+l[m.end():], '< -> <=')
        for m in re.finditer(r'(?<![>\-=])>(?![>=])', l):
            if ' > ' in l[max(0,m.start()-1):m.end()+1]: add(l[:m.start()]+'>='+l[m.end():], '> -> >=')
        for m in re.finditer(r' \+ ', l): add(l[:m.start()]+' - '+l[m.end():], '+ -> -')
        for m in re.finditer(r' - ', l): add(l[:m.start()]+' + '+l[m.end():], '- -> +')
        for m in re.finditer(r'\btrue\b', l): add(l[:m.start()]+'false'+l[m.end():], 'true -> false')
        for m in re.finditer(r'\bfalse\b', l): add(l[:m.start()]+'true'+l[m.end():], 'false -> true')
        for m in re.finditer(r'(?<=[(\s])!(?=[\w(])', l): add(l[:m.start()]+l[m.end():], 'drop !')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
            if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
            add(l[:m.start()]+str(int(m.group(1))+1)+l[m.end():], 'const +1')
        for m in re.finditer(r'(\+=|-=)', l): add(l[:m.start()]+('-=' if m.group(1)=='+=' else '+=')+l[m.end():], 'swap '+m.group(1))
        if re.match(r'^\s+[\w>.*\[\]+()-]+.*;$', l) and s.count('(') == s.count(')') and not re.match(r'(const |static |struct |enum |uint|size_t|ssize_t|int |bool |char |double |float |return|goto|unsigned|va_list|auto |case|default|FILE|extern|using|pthread_\w+_t|std::)', s) and not re.match(r'^\w+ \*? ?\w+( =.*)?;$', s):
            add(re.match(r'^\s*', l).group()+';', 'delete statement')
        m = re.match(r'^(\s*)(break|continue);', l)
        if m: add(m.group(1)+';', 'delete '+m.group(2))
        m = re.match(r'^(\s+)(\} else )?if \((.*)\)( \{)?$', l)
        if m and m.group(3).count('(') == m.group(3).count(')'):
            add(m.group(1)+(m.group(2) or '')+'if (1)'+(m.group(4) or ''), 'if true')
            add(m.group(1)+(m.group(2) or '')+'if (0)'+(m.group(4) or ''), 'if false')
    seen, r = set(), []
    for m in out:
        k = (m[0], m[2])
        if k not in seen: seen.add(k); r.append(m)
    return r
def main():
    workers, outf = int(sys.argv[1]), sys.argv[2]
    pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    limit = int(os.environ.get('LIMIT', '0'))
    done = set()
    if os.path.exists(outf):
        for l in open(outf): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    jobs = []
    for rel, props in MAP:
        if not pat.search(rel): continue
        ms = mutants(rel, open('/repo/src/'+rel).read())
        random.Random(rel).shuffle(ms)
        for m in ms[:limit or None]:
            if (rel, m[0]+1, m[2]) not in done: jobs.append((rel, props.split(), m))
    print(len(jobs), 'mutants', flush=True)
    if os.environ.get('COUNT'): return
    random.Random(1).shuffle(jobs)
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    stat = {}
    def work(i):
        base = '/tmp/mutw/%d' % i
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.check_call(['git', 'clone', '-q', '/repo', base+'/repo'])
        os.makedirs(base+'/verif')
        for x in ('check','harness.py','pbt','props','conf','known_findings'): subprocess.check_call(['cp','-a','/verif/'+x, base+'/verif/'])
        env = dict(os.environ, VERIF_REPO=base+'/repo', PBT_SHRINK='0')
        while True:
            try: rel, props, (n, old, new, what) = q.get_nowait()
            except queue.Empty: return
            f = base+'/repo/src/'+rel
            text = open(f).read()
            lines = text.split('\n')
            lines[n] = new
            open(f,'w').write('\n'.join(lines))
            res = 'survived'
            t = time.time()
            for p in props:
                try: r = subprocess.run(['./check', p, '--cap', '60'], cwd=base+'/verif', env=env, capture_output=True, text=True, timeout=420)
                except subprocess.TimeoutExpired: res = 'timeout '+p; subprocess.run('pkill -f %s/verif/build' % base, shell=True); break
                if r.returncode == 1: res = 'killed '+p; break
                if r.returncode == 2: res = 'error'; break
            open(f,'w').write(text)
            with lock:
                k = res.split()[0]
                stat[k] = stat.get(k,0)+1
                with open(outf,'a') as o: o.write(json.dumps(dict(file=rel, line=n+1, old=old.strip(), new=new, what=what, res=res, t=round(time.time()-t,1)))+'\n')
                if sum(stat.values()) % 20 == 0: print(stat, q.qsize(), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    print('end', stat)
main()
