"""Starting blogc-runserver and talking to it over raw sockets."""
import collections
import os
import signal
import socket
import struct
import subprocess
import time
import vlib

Resp = collections.namedtuple('Resp', 'status headers body raw')


class Server:
    def __init__(self, exe, docroot, scratch, args=(), env=None, cwd=None, host='127.0.0.1', preload=None):
        self.exe, self.docroot, self.scratch = exe, docroot, scratch
        self.args, self.cwd, self.host = list(args), cwd, host
        self.env = env or vlib.base_env()
        if preload:
            self.env['LD_PRELOAD'] = preload
        self.log = os.path.join(scratch, 'server-%d.log' % os.getpid())
        self.proc = None
        self.start()

    def start(self):
        for attempt in range(20):
            fam = socket.AF_INET6 if ':' in self.host else socket.AF_INET
            s = socket.socket(fam)
            s.bind((self.host, 0))
            self.port = s.getsockname()[1]
            s.close()
            self.logfp = open(self.log, 'wb')
            self.proc = subprocess.Popen([self.exe, '-t', self.host, '-p', str(self.port)] + self.args + [self.docroot], cwd=self.cwd, env=self.env,
                                         stdin=subprocess.DEVNULL, stdout=self.logfp, stderr=self.logfp, start_new_session=True, preexec_fn=vlib.die_with_parent)
            end = time.time() + 30
            while time.time() < end:
                if self.proc.poll() is not None:
                    break
                if b'Running on' in self.text():
                    return
                time.sleep(.005)
            self.stop()
        raise RuntimeError('the server does not start: %r' % self.text()[-500:])

    def text(self):
        with open(self.log, 'rb') as fp:
            return fp.read()

    def stop(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
        if self.logfp:
            self.logfp.close()

    def alive(self):
        return self.proc.poll() is None

    def trouble(self):
        """a sanitizer report or the death of the server, or None"""
        rc = self.proc.poll()
        t = self.text()
        r = vlib.R(rc if rc is not None else 0, b'', t, False)
        s = vlib.sanitizer(r)
        if s:
            return s, vlib.report(t)
        if rc is not None:
            return 'the server exited with %r' % rc, t[-800:].decode('utf-8', 'replace')
        return None

    def connect(self, timeout=60):
        return socket.create_connection((self.host, self.port), timeout=timeout)

    def raw(self, data, timeout=60, chunks=None, shut=False):
        """Sends data and reads to the end of the connection; None when it was reset."""
        try:
            s = self.connect(timeout)
        except OSError as e:
            return 'connect: %s' % e
        try:
            try:
                if chunks:
                    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    for c in chunks:
                        s.sendall(c)
                        time.sleep(.001)
                else:
                    s.sendall(data)
                if shut:
                    s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            out = b''
            while True:
                b = s.recv(262144)
                if not b:
                    return out
                out += b
        except socket.timeout:
            return 'timeout after %r' % out[:100]
        except OSError as e:
            return 'error: %s after %r' % (e, out[:100])
        finally:
            s.close()


def parse(raw):
    """Resp, or a string that says what is wrong with the response"""
    if not isinstance(raw, bytes):
        return raw
    head, sep, body = raw.partition(b'\r\n\r\n')
    if not sep:
        return 'no header end in %r' % raw[:200]
    lines = head.split(b'\r\n')
    p = lines[0].split(b' ', 2)
    if len(p) != 3 or not p[0].startswith(b'HTTP/1.') or len(p[1]) != 3 or not p[1].isdigit():
        return 'status line %r' % lines[0]
    h = {}
    for x in lines[1:]:
        k, sep, v = x.partition(b':')
        if not sep or not k or b' ' in k or b'\n' in x or b'\r' in x:
            return 'header %r' % x
        k = k.lower().decode('latin-1')
        if k in h:
            return 'header %r twice' % k
        h[k] = v.strip()
    if 'content-length' in h:
        if not h['content-length'].isdigit() or int(h['content-length']) != len(body):
            return 'Content-Length %r with a body of %d bytes' % (h['content-length'], len(body))
    return Resp(int(p[1]), h, body, raw)
