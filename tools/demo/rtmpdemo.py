"""A small RTMP/HTTP client and server launcher for the demonstrations (real time, loopback)."""
import os, shutil, signal, socket, struct, subprocess, sys, tempfile, time
OBJS = '/repo/_build/nginx/objs'
def freeport():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p
class Nginx:
    def __init__(self, rtmp='', app='', http='', main='', apps='', httpmain='', workers=0, events='', user='root', srvname=''):
        self.dir = tempfile.mkdtemp(prefix='demo_'); self.rport = freeport(); self.hport = freeport()
        for d in ('logs', 'conf', 'tmp', 'data'): os.mkdir(self.dir + '/' + d)
        sub = lambda s: s.replace('@DIR@', self.dir).replace('@RPORT@', str(self.rport)).replace('@HPORT@', str(self.hport))
        name = open(OBJS + '/pingos.name').read().strip()
        conf = f'''load_module {OBJS}/{name}.so;
load_module {OBJS}/ngx_http_ts_module.so;
user {user}; daemon off; {'master_process on; worker_processes %d;' % workers if workers else 'master_process off;'}
error_log logs/error.log info; pid logs/nginx.pid;
{sub(main)}
events {{ worker_connections 256; {sub(events)} }}
rtmp {{ server {{ listen 127.0.0.1:{self.rport}; {sub(rtmp)}
 application live {{ live on; {sub(app)} }}
 {sub(apps)}
}} }}
http {{ access_log off; client_body_temp_path tmp/b; proxy_temp_path tmp/p; fastcgi_temp_path tmp/f; uwsgi_temp_path tmp/u; scgi_temp_path tmp/s;
 {sub(httpmain)}
 server {{ listen 127.0.0.1:{self.hport}; {sub(http)} }} }}
'''
        open(self.dir + '/conf/nginx.conf', 'w').write(conf); self.start()
    def start(self):
        self.err = open(self.dir + '/stderr', 'a')
        self.p = subprocess.Popen(['/usr/sbin/nginx', '-p', self.dir, '-e', self.dir + '/logs/error.log', '-c', self.dir + '/conf/nginx.conf'], stdout=self.err, stderr=self.err, preexec_fn=os.setpgrp)
        for _ in range(100):
            try: socket.create_connection(('127.0.0.1', self.rport), 1).close(); return
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: break
        print('nginx did not start'); print(open(self.dir + '/stderr').read()); self.stop(); sys.exit(99)
    def alive(self):
        return self.p.poll() is None
    def log(self): return open(self.dir + '/logs/error.log', errors='replace').read()
    def stop(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait(); shutil.rmtree(self.dir, ignore_errors=True)
# ---- AMF0
class Null: pass
def amf(v):
    if v is Null or v is None: return b'\5'
    if isinstance(v, bool): return b'\1' + bytes([v])
    if isinstance(v, (int, float)): return b'\0' + struct.pack('>d', v)
    if isinstance(v, str): v = v.encode()
    if isinstance(v, bytes): return b'\2' + struct.pack('>H', len(v)) + v
    return b'\3' + b''.join(struct.pack('>H', len(k)) + k.encode() + amf(x) for k, x in v.items()) + b'\0\0\t'
def unamf(d):
    o, out = 0, []
    def one():
        nonlocal o
        t = d[o]; o += 1
        if t == 0: v = struct.unpack_from('>d', d, o)[0]; o += 8; return v
        if t == 1: v = bool(d[o]); o += 1; return v
        if t == 2: n = struct.unpack_from('>H', d, o)[0]; o += 2 + n; return d[o - n:o].decode('latin1')
        if t in (3, 8):
            if t == 8: o += 4
            r = {}
            while True:
                n = struct.unpack_from('>H', d, o)[0]; k = d[o + 2:o + 2 + n].decode('latin1'); o += 2 + n
                if n == 0 and d[o] == 9: o += 1; return r
                r[k] = one()
        if t == 10:
            n = struct.unpack_from('>I', d, o)[0]; o += 4; return [one() for _ in range(n)]
        return None
    while o < len(d):
        try: out.append(one())
        except (IndexError, struct.error): break
    return out
class Closed(Exception): pass
class Rtmp:
    def __init__(self, ng, chunk=4096, port=None, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.connect(('127.0.0.1', port or ng.rport)); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); self.s.settimeout(5)
        c1 = struct.pack('>II', 1, 0) + bytes(1528); self.s.sendall(b'\3' + c1); d = self.rd(1 + 1536 * 2); self.s.sendall(d[1:1537])
        self.inchunk = 128; self.outchunk = 128; self.buf = b''; self.st = {}; self.msgs = []; self.total = 0; self.pong = True
        if chunk != 128: self.send(2, 1, 0, 0, struct.pack('>I', chunk)); self.outchunk = chunk
    def rd(self, n):
        b = b''
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x: raise Closed()
            b += x
        return b
    def enc(self, cs, typ, ts, sid, data):
        e = struct.pack('>I', ts) if ts >= 0xffffff else b''
        h = bytes([cs]) + min(ts, 0xffffff).to_bytes(3, 'big') + len(data).to_bytes(3, 'big') + bytes([typ]) + struct.pack('<I', sid) + e
        o = h + data[:self.outchunk]
        for i in range(self.outchunk, len(data), self.outchunk): o += bytes([0xc0 | cs]) + e + data[i:i + self.outchunk]
        return o
    def send(self, cs, typ, ts, sid, data): self.s.sendall(self.enc(cs, typ, ts, sid, data))
    def cmd(self, sid, *v): self.send(3 if sid == 0 else 8, 20, 0, sid, b''.join(amf(x) for x in v))
    def _pump(self, timeout):
        self.s.settimeout(max(timeout, 0.001))
        try: d = self.s.recv(65536)
        except socket.timeout: return False
        except OSError: raise Closed()
        if not d: raise Closed()
        self.total += len(d); self.buf += d; self._parse(); return True
    def _parse(self):
        while True:
            b = self.buf
            if not b: return
            fmt, cs, o = b[0] >> 6, b[0] & 63, 1
            if cs == 0:
                if len(b) < 2: return
                cs = 64 + b[1]; o = 2
            st = self.st.setdefault(cs, dict(ts=0, d=0, len=0, type=0, sid=0, part=b'', ext=False))
            n = (11, 7, 3, 0)[fmt]
            if len(b) < o + n: return
            h = b[o:o + n]; o += n; ts = None; ext = st['ext']; new = dict(st)
            if n >= 3: ts = int.from_bytes(h[:3], 'big'); ext = ts == 0xffffff
            if n >= 7: new['len'] = int.from_bytes(h[3:6], 'big'); new['type'] = h[6]
            if n >= 11: new['sid'] = struct.unpack('<I', h[7:11])[0]
            if ext and (fmt < 3 or getattr(self, 'ext3', True)):
                if len(b) < o + 4: return
                if n >= 3: ts = struct.unpack('>I', b[o:o + 4])[0]
                o += 4
            take = min(self.inchunk, new['len'] - len(st['part']))
            if take < 0: raise Closed('bad chunk')
            if len(b) < o + take: return
            if not st['part']:
                if fmt == 0: new['ts'] = ts; new['d'] = 0
                elif fmt < 3: new['d'] = ts; new['ts'] = (st['ts'] + ts) & 0xffffffff
                else: new['ts'] = (st['ts'] + st['d']) & 0xffffffff
            new['ext'] = ext; new['part'] = st['part'] + b[o:o + take]; self.buf = b[o + take:]
            if len(new['part']) == new['len']:
                m = (new['type'], new['ts'], new['part'], new['sid']); new['part'] = b''
                if m[0] == 1: self.inchunk = struct.unpack('>I', m[2][:4])[0]
                if m[0] == 4 and m[2][:2] == b'\0\6' and self.pong:
                    try: self.send(2, 4, 0, 0, b'\0\7' + m[2][2:6])
                    except OSError: pass
                self.msgs.append(m)
            self.st[cs] = new
    def wait(self, pred, timeout=5):
        """pump until pred(message) for some message; returns it"""
        i, end = 0, time.time() + timeout
        while True:
            while i < len(self.msgs):
                if pred(self.msgs[i]): return self.msgs[i]
                i += 1
            if time.time() >= end: return None
            self._pump(min(0.2, end - time.time()))
    def idle(self, t):
        end = time.time() + t
        while time.time() < end: self._pump(end - time.time())
    def result(self, n, timeout=5):
        return self.wait(lambda m: m[0] == 20 and unamf(m[2])[:2] in (['_result', float(n)], ['_error', float(n)]), timeout)
    def status(self, code, timeout=5):
        return self.wait(lambda m: m[0] == 20 and b'onStatus' in m[2] and code.encode() in m[2], timeout)
    def connect(self, app='live', host='demo.test', **kw):
        self.cmd(0, 'connect', 1, dict(app=app, flashVer='FMLE/3.0', tcUrl='rtmp://%s/%s' % (host, app), **kw))
        if not self.result(1): raise Closed('connect not answered')
        self.cmd(0, 'createStream', 2, Null)
        if not self.result(2): raise Closed('createStream not answered')
        return self
    def publish(self, name, wait=True):
        self.connect() if not getattr(self, 'conn', 0) else None
        self.cmd(1, 'publish', 3, Null, name, 'live')
        if wait and not self.status('NetStream.Publish.Start'): raise Closed('publish not answered')
        return self
    def play(self, name, wait=True):
        self.connect() if not getattr(self, 'conn', 0) else None
        self.cmd(1, 'play', 4, Null, name, -2000)
        if wait and not self.status('NetStream.Play.Start'): raise Closed('play not answered')
        return self
    def av(self): return [m for m in self.msgs if m[0] in (8, 9)]
    def audio(self, ts, data): self.send(4, 8, ts, 1, data)
    def video(self, ts, data): self.send(6, 9, ts, 1, data)
    def meta(self, ts=0, **kw):
        d = dict(width=640, height=360, framerate=25, videocodecid=7, audiocodecid=10); d.update(kw)
        self.send(5, 18, ts, 1, amf('@setDataFrame') + amf('onMetaData') + amf(d))
    def close(self): self.s.close()
    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); self.s.close()
SPS = bytes.fromhex('6764001facd9405005bb011000000300100000030320f183196000')[:27]
PPS = bytes.fromhex('68ebecb22c')
def avc_header(var=0):
    pps = PPS + bytes([0x80 | var])
    return b'\x17\0\0\0\0\1' + SPS[1:4] + b'\xff\xe1' + struct.pack('>H', len(SPS)) + SPS + b'\1' + struct.pack('>H', len(pps)) + pps
def aac_header(idx=4, ch=2): return b'\xaf\0' + bytes([2 << 3 | idx >> 1, (idx & 1) << 7 | ch << 3])
def vframe(i, key=False, size=60, cts=0):
    nal = bytes([0x65 if key else 0x41]) + b'V%06d' % i + bytes((i * 7 + k * 13) % 200 + 20 for k in range(size))
    return (b'\x17' if key else b'\x27') + b'\1' + cts.to_bytes(3, 'big') + struct.pack('>I', len(nal)) + nal
def aframe(i, size=30): return b'\xaf\1' + b'A%06d' % i + bytes((i * 5 + k * 11) % 200 + 20 for k in range(size))
def http(ng, path, timeout=5, host='demo.test', stop=None):
    """GET; returns (status, headers bytes, body bytes, eof)"""
    s = socket.create_connection(('127.0.0.1', ng.hport), 5); s.sendall(('GET %s HTTP/1.0\r\nHost: %s\r\n\r\n' % (path, host)).encode())
    b, eof, end = b'', False, time.time() + timeout
    while time.time() < end:
        s.settimeout(max(0.01, end - time.time()))
        try: d = s.recv(65536)
        except (socket.timeout, OSError): break
        if not d: eof = True; break
        b += d
        if stop and stop(b): break
    s.close(); h, _, body = b.partition(b'\r\n\r\n')
    try: st = int(h.split(b' ')[1])
    except (IndexError, ValueError): st = 0
    return st, h, body, eof
def flv_tags(b):
    assert b[:3] == b'FLV', 'no FLV header'
    o, out = 13, []
    while o + 11 <= len(b):
        n = int.from_bytes(b[o + 1:o + 4], 'big'); ts = int.from_bytes(b[o + 4:o + 7], 'big') | b[o + 7] << 24
        if o + 11 + n + 4 > len(b): break
        out.append((b[o], ts, b[o + 11:o + 11 + n], int.from_bytes(b[o + 11 + n:o + 15 + n], 'big') == n + 11)); o += 15 + n
    return out
def fail(*a): print('FAIL:', *a); raise SystemExit(1)
def run(fn):
    """runs a demonstration and makes sure no server survives it"""
    servers = []
    orig = Nginx.__init__
    def init(self, *a, **k): servers.append(self); orig(self, *a, **k)
    Nginx.__init__ = init
    code = 0
    try: fn(); print('ok')
    except SystemExit as e: code = e.code or 0
    except Closed as e: print('FAIL: connection closed', e); code = 1
    except Exception as e: import traceback; traceback.print_exc(); code = 1
    finally:
        for s in servers: s.stop()
    sys.exit(code)
