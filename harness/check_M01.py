"""M01: attachments - templates, pictures, help, packages, predefined data, rights - as files of the sources."""
import base64
import os
import random
import shutil

import objects as O
import objrun
import products as P
from vlib import digest

BASES = ['cf', 'cf', 'cfe', 'epf803', 'epf802', 'erf']
TYPES = dict(table=['0'], scheme=['2', '5', '6', '7', '8'], text=['4'], oddtext=['4'], html=['3'], blob=['1', '9'])
KINDS = dict(raw=['table', 'scheme', 'scheme', 'oddtext', 'brace', 'package', 'predefined', 'bighelp'], text=['text'],
             held=['picture', 'picture', 'html', 'help', 'help', 'splash'], blob=['blob'])
COMMENTS = ['', '', 'png', 'Картинка png', 'a jpeg', 'Описание zip ', 'json', 'описание в json', 'b.png', 'longext', 'текст', 'bsl',
            'id', 'PNG', '2', 'html', 'два слова', 'a ""b""', 'elem', 'x y z 7z', 'три\nстроки gif', 'bin', 'ОченьДлинное']
BOM = b'\xef\xbb\xbf'


def wording(rng):
    w = ''.join(rng.choice('abPNGxyzZ7жЯ') for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6])))
    if rng.random() < .2:
        w = w[:1] + rng.choice('._-/+') + w[1:]
    return rng.choice(['', '', 'Рисунок ', 'два слова ', ' ']) + w + rng.choice(['', '', '', ' ', '.'])


def word_of(comment):
    w = comment.strip().split(' ')[-1] if comment.strip() else ''
    return dict(text=w, short=0 < len(w) < 6, alnum=w.isalnum())


def b64(data, rng, data_ok=False):
    t = base64.b64encode(data).decode()
    style = rng.choice(['one', 'crlf', 'crlf', 'crcrlf'])
    head = '#base64:'
    if data_ok and rng.random() < .15:
        head, style = '#data:', 'one'
    if style == 'one' or len(t) <= 64:
        return head + t
    nl = '\r\n' if style == 'crlf' else '\r\r\n'
    return head + nl.join(t[k:k + 64] for k in range(0, len(t), 64))


def unb64(token):
    if not isinstance(token, str) or not token.startswith(('#base64:', '#data:')):
        return None
    try:
        return base64.b64decode(token[token.index(':') + 1:], validate=True)
    except ValueError:
        return None


class Att:
    N = 0

    def __init__(self, rng, beh):
        Att.N += 1
        self.rng, self.kind = rng, beh['att']['k']
        self.what = rng.choice(KINDS[self.kind])
        a = beh['att']['a']
        self.there, self.shell, self.n = a['there'], a['shell'], a['data']
        if self.what == 'oddtext' and 0 in [self.n if self.there else 1] + [n for op, n in beh['ops'] if op == 'put']:
            self.what = 'scheme'        # an empty text is a text in a known encoding
        self.rounds = [[]]
        for op, n in beh['ops']:
            if op == 'again':
                self.rounds.append([])
            else:
                self.rounds[-1].append((op, n))
        self.comment = rng.choice(COMMENTS) if rng.random() < .6 else wording(rng)
        self.events, self.made = [], {}
        self.enc = rng.choice(['utf-8', 'utf-8-sig', 'utf-8-sig', 'utf-16'])
        self.tokens = {}
        self.id = self.slot = self.folder = None

    def data(self, n):
        """content number n of this attachment"""
        if n == 0:
            return b''
        if n not in self.made:
            r = self.rng
            if self.what == 'text':
                tok = 'Жук%d-%dжук' % (Att.N, n) + str(r.random())
                t = r.choice(['', '\n', '{1,2}\n', ' ', '// ', '#Область include_a\n', '&НаСервере\n', 'Ё\t', '\n\n\n']) + tok + r.choice(['', '\n', '\n\n', ' конец', '\nx' * 300])
                self.made[n] = t
                tok = tok.encode('utf-16-le' if self.enc == 'utf-16' else 'utf-8')
            else:
                tok = b'\x98\xfftk' + r.randbytes(8)
                if self.what == 'oddtext':
                    self.made[n] = 'Текст в старой кодировке '.encode('cp1251') + r.choice([b'', b'\r\n', b'\x98']) + tok[1:]
                    tok = tok[1:]
                else:
                    pre = r.choice([b'', b'\r\n', b'\n', BOM, BOM + b'{1,\r\n{#base64:', b'{"a": 1}', b'\x00', b'#', base64.b64decode('base64as'), b'\xff\xfe', b'MOXCEL\x00\x08'])
                    if self.what == 'brace' or self.what == 'package':
                        pre = r.choice([pre, BOM + '{6,{"текст",0},'.encode(), b'<?xml version="1.0"?>\r\n'])
                    self.made[n] = pre + tok + r.randbytes(r.choice([0, 1, 2, 3, 40, 47, 48, 49, 5000])) + r.choice([b'', b'\r\n', b'\n', b'\r', b'}\r\n}', b'\x1a'])
            self.tokens[n] = tok
        v = self.made[n]
        if self.what == 'text':
            return v.replace('\n', self.rng.choice(['\r\n', '\n'])).encode(self.enc)
        return v

    def canon(self, data):
        """digest of content"""
        if data is None:
            return 'unreadable'
        if self.what == 'text':
            for enc, bom in (('utf-8-sig', BOM), ('utf-16', b'\xff\xfe'), ('utf-16', b'\xfe\xff'), ('utf-8', b'')):
                if data.startswith(bom):
                    try:
                        t = data.decode(enc).replace('\r\n', '\n').replace('\r', '\n')
                    except UnicodeDecodeError:
                        return 'unreadable'
                    return digest(f'{enc}:{t}') if t else '0'
        return digest(data) if data else '0'

    # -- the entry of the product
    def entry(self):
        if not self.there:
            return None
        d, r = self.data(self.n), self.rng
        if self.kind in ('raw', 'text'):
            return self.big(d) if self.what == 'bighelp' else d
        t = b64(d, r, self.kind == 'held') if d or self.kind != 'held' or r.random() < .5 else ''     # nothing is also written {}
        if self.kind == 'blob':
            v = '{1,\r\n{%s}\r\n}' % t
        elif self.what in ('picture', 'splash'):
            v = ('{1,\r\n{0,0,-1,-1},\r\n{\r\n{%s}\r\n}\r\n}' if self.shell == 1 else '{1,\r\n{0},\r\n{\r\n{%s}\r\n}\r\n}') % t
        else:
            v = ('{5,1,"ru",\r\n{%s},0}' if self.shell == 1 else '{5,2,"ru",\r\n{%s},"en",\r\n{#base64:QUJD},0}') % t
        return BOM + v.encode()

    @staticmethod
    def big(d):
        return BOM + b'{5,1,"ru",\r\n{#base64:' + base64.b64encode(d + bytes(800000)) + b'},0}'

    def parse(self, entry):
        if entry is None:
            return dict(there=False, shell='0', data='0')
        if isinstance(entry, dict):
            return dict(there=True, shell='folder', data='folder')
        if self.what == 'bighelp':
            return dict(there=True, shell='0', data=digest(entry))
        if self.kind in ('raw', 'text'):
            return dict(there=True, shell='0', data=self.canon(entry))
        v = P.brace_of(entry)
        try:
            hold = v[0][1] if self.kind == 'blob' else v[0][2][0] if self.what in ('picture', 'splash') else v[0][3]
            if not hold:
                hold.append('')
            d = unb64(hold[0]) if hold[0] or self.kind != 'held' else b''
            hold[0] = hold[0][:6] if hold[0] or self.kind != 'held' else '#base6'
        except (TypeError, IndexError):
            return dict(there=True, shell='unreadable', data='unreadable')
        if self.kind == 'blob':
            return dict(there=True, shell='1' if v == [['1', ['#base6']]] else str(v)[:80], data=self.canon(d))
        return dict(there=True, shell=digest(P.emit(v)), data=self.canon(d))

    # -- its file
    def name(self):
        """file it is expected in, when there has to be one: used to write"""
        w = word_of(self.comment)
        ext = w['text'] if w['short'] and w['alnum'] and w['text'] not in ('json', 'bsl') else 'bin'
        return dict(table=f'{self.file}.mxl', scheme=f'{self.file}.bin', text=f'{self.file}.txt', oddtext=f'{self.file}.bin',
                    html=f'{self.file}.html', help=f'{self.file}.html', bighelp=f'{self.file}.bin', brace=f'{self.file}.0.c1brace',
                    package=f'{self.file}.bin', predefined='Карта маршрута.bin' if self.file == 'BusinessProcess' else 'Предустановленные данные.bin', splash='Заставка').get(self.what, f'{self.file}.{ext}')

    def look(self, src):
        """events for the files of this attachment"""
        out, names = [], set()
        folder = os.path.join(src, *self.folder)
        want, entry = self.name(), f'{self.file}.c1b64' if self.kind == 'blob' else None
        for n in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
            f = os.path.join(folder, n)
            if not os.path.isfile(f):
                continue
            with open(f, 'rb') as h:
                data = h.read()
            if n == entry:
                out.append(dict(ev='File', **{'is': 'entry'}, ext='c1b64', data=self.parse(data)['data']))
            elif n == want or (not n.endswith('.json') and any(t in data for t in self.tokens.values())):
                ext = n[len(self.file) + 1:] if n.startswith(self.file + '.') else n
                d = digest(data) if self.what == 'bighelp' else self.canon(data)
                out.append(dict(ev='File', **{'is': 'data'}, ext=ext, data=d))
        return out

    def put(self, src, n):
        folder = os.path.join(src, *self.folder)
        d = self.data(n)
        if self.what == 'bighelp':
            d = self.big(d)
        for x in (f'{self.file}.c1b64',) if self.kind == 'blob' else ():
            if os.path.exists(os.path.join(folder, x)):
                os.remove(os.path.join(folder, x))
        with open(os.path.join(folder, self.name()), 'wb') as h:
            h.write(d)
        return self.canon(d) if self.what != 'bighelp' else digest(d)

    def remove(self, src):
        folder = os.path.join(src, *self.folder)
        for x in (self.name(), f'{self.file}.c1b64'):
            f = os.path.join(folder, x)
            if os.path.isfile(f):
                os.remove(f)


class Host:
    def __init__(self, c, base):
        self.c, self.rng, self.base, self.p, self.gen = c, c.rng, base, O.Product(base), O.Gen(c.rng)
        self.splash = base == 'cf'
        self.used = set()

    def add(self, kind, up='', comment=None):
        o = self.gen.obj(kind, up, self.rng.choice(O.WORDS) + '_' + str(len(self.p.objs)), self.base)
        if comment is not None:
            for x in P.walk(o.header):
                if O.is_tuple(x):
                    x[4] = f'"{comment}"'
                    break
        self.p.add(o)
        return o

    def template(self, a):
        r, p = self.rng, self.p
        kinds = [k for k in p.kinds if O.KINDS[k]['role'] == 'template']
        up = ''
        if self.base in ('cf', 'cfe') and r.random() < .6:
            up = self.add(r.choice(['DataProcessor', 'Report', 'Catalog', 'Document'])).id
            kinds = ['Template']
        k = r.choice(kinds)
        o = self.add(k, up, a.comment)
        o.header[0][1][1 if k == 'Template' else 2] = r.choice(TYPES[a.what])
        return o, '0'

    def place(self, a):
        r, p = self.rng, self.p
        cf = self.base in ('cf', 'cfe')
        if a.what in TYPES:
            o, slot = self.template(a)
        elif a.what == 'splash':
            if not self.splash:
                return False
            self.splash = False
            a.id, a.slot, a.folder, a.file = p.own, '2', [], 'Configuration'
            e = a.entry()
            if e is not None:
                p.rest[f'{p.own}.2'] = e
            return True
        elif not cf:
            return False
        elif a.what == 'picture':
            o, slot = self.add('CommonPicture', '', a.comment), '0'
        elif a.what in ('help', 'bighelp'):
            o = self.add(r.choice([k for k in p.kinds if O.KINDS[k].get('help')]))
            slot = O.KINDS[o.kind]['help']
        else:
            bins = [k for k in p.kinds if O.KINDS[k].get('bin')]
            ks = [k for k in bins if (k == 'XDTOPackage') == (a.what == 'package') and (O.KINDS[k]['role'] == 'container') == (a.what == 'predefined')]
            o = self.add(r.choice(ks))
            slot = O.KINDS[o.kind]['bin'][0]
        o.sats.pop(slot, None)
        e = a.entry()
        if e is not None:
            o.sats[slot] = e
        a.id, a.slot, a.folder, a.file = o.id, slot, p.path(o.id), o.kind
        return True


def life(c, host, atts):
    import v8unpack
    d = c.dir()
    f = os.path.join(d, 'in.bin')
    entries = host.p.entries()
    for a in atts:
        a.events.append(dict(ev='Attachment', kind=a.kind, what='map' if a.what == 'predefined' and a.file == 'BusinessProcess' else a.what, word=word_of(a.comment), **a.parse(entries.get(f'{a.id}.{a.slot}'))))
    with open(f, 'wb') as h:
        h.write(P.write_product(entries))
    order = objrun.shuffler(c.rng)
    for k in range(max(len(a.rounds) for a in atts)):
        if k:
            for a in atts:
                a.events.append(dict(ev='Again'))
        src = os.path.join(d, f'src{k}')
        r = objrun.run_inline(order, v8unpack.extract, f, src)
        for a in atts:
            if r[0] == 'ok':
                a.events += a.look(src)
            a.events.append(dict(ev='Extracted', ok=r[0] == 'ok', why=str(r[1:])[-900:] if r[0] != 'ok' else ''))
        if r[0] != 'ok':
            break
        for a in atts:
            for op, n in a.rounds[k] if k < len(a.rounds) else ():
                if not os.path.isdir(os.path.join(src, *a.folder)):
                    break
                if op == 'put':
                    a.events.append(dict(ev='Put', data=a.put(src, n)))
                else:
                    a.remove(src)
                    a.events.append(dict(ev='Remove'))
        f = os.path.join(d, f'out{k}.bin')
        r = objrun.run_inline(order, v8unpack.build, src, f)
        got, why = None, str(r[1:])[-900:]
        if r[0] == 'ok':
            try:
                got = P.read_product(open(f, 'rb').read())
            except Exception as e:
                why = f'unreadable product: {e!r}'[:300]
        for a in atts:
            a.events.append(dict(ev='Built', ok=got is not None, why='' if got is not None else why,
                                 **a.parse((got or {}).get(f'{a.id}.{a.slot}'))))
        if got is None:
            break
    shutil.rmtree(d, ignore_errors=True)


def run(c):
    rng, traces = c.rng, []
    c.model('AttachmentsMC', 'Attachments', consts=dict(MaxEdits=c.n(3, 5)))
    r = c.tlc('AttachmentsMC', 'AttachmentsEmit', args=('-simulate', f'num={c.n(2500, 20000)}', '-depth', '12', '-seed', str(c.seed * 5 + 2)))
    by = {}
    for b in r.prints:
        by.setdefault(b['att']['k'], []).append(b)
    atts = []
    for k, v in sorted(by.items()):
        atts += [Att(rng, b) for b in rng.sample(v, min(len(v), c.n(220 if k in ('held', 'blob') else 110, 900)))]
    rng.shuffle(atts)
    atts.sort(key=lambda a: len(a.rounds))
    k, used = 0, {}
    while atts:
        base = BASES[k % len(BASES)]
        k += 1
        host, batch = Host(c, base), []
        for a in atts[:60]:
            if len(batch) < 10 and host.place(a):
                batch.append(a)
        if not batch:
            if k > 5000:
                raise RuntimeError('attachments cannot be placed')
            continue
        taken = set(map(id, batch))
        atts = [a for a in atts if id(a) not in taken]
        life(c, host, batch)
        for a in batch:
            used[a.what] = used.get(a.what, 0) + 1
            traces.append(dict(id=f'a{len(traces)}', events=a.events, about=dict(base=base, what=a.what, comment=a.comment, rounds=len(a.rounds))))
    c.extra['attachments'] = used
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('AttachmentsTrace', traces)
