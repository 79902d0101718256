"""Texts of modules: making the lines of the Modules specification concrete, and reading them back"""
import itertools
import re

import objects as O
import products as P
from vlib import codes, digest

BOM = b'\xef\xbb\xbf'
DIRECTIVES = ['#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте', '&НаСервереБезКонтекста', '&НаКлиентеНаСервереБезКонтекста']
FOUR = ('#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте')
MARK = '// v8unpack '
TEXTS = ['Процедура А() Экспорт', '', '\tСообщить("{1,2}");', 'КонецПроцедуры', '// v8unpack', '//v8unpack #Область', ' #Область О',
         '\t&НаСервере', '|продолжение ""строки"" #КонецОбласти', '#Если Сервер Тогда', 'х = "a""b";  ', '&Перед("Имя")', '}{,"',
         '\t// v8unpack #Область', 'ё№ «» €', 'А = ' + 'х' * 3000 + ';', '#include_a', 'include_б', '// https://a.b/?c=d&НаСервере']


def lines_of(text):
    if text == '':
        return []
    out = []
    for l in text.replace('\r\n', '\n').replace('\r', '\n').split('\n'):
        if l.startswith(FOUR):
            out.append(['d', l])
        elif l.startswith(MARK) and l[len(MARK):].startswith(FOUR):
            out.append(['c', l[len(MARK):]])
        else:
            out.append(['t', l])
    return [dict(k=k, t=codes(t)) for k, t in out]


def blob_lines(data):
    return [dict(k='t', t=[digest(data)])]


ODD = [0, 31, 8, 14, 1, 30, *range(2, 8), *range(15, 30)]


class Module:
    N = odd = 0

    def __init__(self, rng, beh):
        Module.N += 1
        self.rng = rng
        self.place, self.enc = beh['mod']['place'], beh['mod']['enc']
        self.rounds = [[]]
        for o in beh['ops']:
            if o['a'] == 'again':
                self.rounds.append([])
            else:
                self.rounds[-1].append(o['lines'])
        self.mark = 'Зм%dз' % Module.N
        self.events = []
        self.file = None
        self.text = self.blob = None
        if self.enc in ('opaque', 'image'):
            n = rng.choice([0, 1, 5, 100, 5000])
            self.token = b'\x00\x98\xff' + rng.randbytes(9)
            self.blob = rng.choice([b'', b'\r', BOM, b'#\n']) + self.token + rng.randbytes(n) + rng.choice([b'', b'\r\n', b'\n', b'\r'])
            if self.enc == 'opaque' and rng.random() < .7:       # one character that does not belong to a text, all others do
                Module.odd += 1
                odd = bytes([ODD[Module.odd % len(ODD)]])
                self.token = b'\xff\xc6' + bytes(rng.choice(range(0xc0, 0x100)) for _ in range(7)) + odd + b'\r'
                self.blob = rng.choice([b'', b'\xcf\xf0\xee\n', b'\r\n']) + self.token + rng.choice([b'', b'\r\n', b'\xe0' * n])
        else:
            self.text = self.make(beh['mod']['lines'], stored=True)

    def make(self, lines, stored):
        """text of the lines: directives open and close areas in pairs"""
        r, depth, out = self.rng, 0, []
        marked = self.place in ('old', 'form')
        at = r.randrange(len(lines)) if lines else 0
        for i, l in enumerate(lines):
            if l['k'] == 't':
                t = TEXTS[l['t'] % len(TEXTS)]
            else:
                t = DIRECTIVES[l['t'] % 6]
                real = l['k'] == 'd' or (marked and i > 0)   # an area in the sources
                if t == DIRECTIVES[0]:
                    if real:
                        depth += 1
                    t += ' Имя%d' % i
                elif t == DIRECTIVES[1] and real:
                    if not depth:
                        t = DIRECTIVES[2]
                    else:
                        depth -= 1
            if i == at:
                t += ' // ' + self.mark
            out.append((MARK if l['k'] == 'c' else '') + t)
        return '\n'.join(out)

    def raw(self, text, enc=None):
        enc = enc or self.enc
        data = text.replace('\n', self.rng.choice(['\r\n', '\r\n', '\n'])).encode('cp1251' if enc == 'cp1251' else 'utf-8', 'replace')
        return BOM + data if enc == 'bom' else data

    def stored(self, data):
        """(encoding, lines) of what the product contains"""
        if self.enc in ('opaque', 'image'):
            if isinstance(data, dict):
                n = [k for k in data if k not in ('info', 'form')]
                return ('image' if n == ['image'] else 'opaque'), blob_lines(data[n[0]]) if len(n) == 1 else []
            return 'opaque', blob_lines(data)
        if isinstance(data, dict):
            n = [k for k in data if k not in ('info', 'form')]
            if len(n) != 1 or n[0] not in ('text', 'module'):
                return 'entries ' + ','.join(n), []
            data = data[n[0]]
        if data[:3] == BOM:
            enc, text = 'bom', data[3:]
        else:
            enc, text = 'utf8', data
        try:
            text = text.decode('utf-8')
        except UnicodeDecodeError:
            if enc == 'bom':
                return 'unreadable', []
            enc, text = 'cp1251', text.decode('cp1251', 'replace')
        if enc == 'utf8' and self.enc == 'cp1251' and text.isascii():
            enc = 'cp1251'
        return enc, lines_of(text)


def place_of_code(value):
    """the list with the code inside a managed form, and the place of the code in it"""
    if len(value[0]) > 2 and value[0][0] in ('4', '3', '2'):
        return value[0], 2
    while isinstance(value[-1], list):   # older layout
        value = value[-1]
    return value, len(value) - 8


def code_of_form(value, new=None):
    """the code inside a managed form; replaces it when new is given"""
    at, i = place_of_code(value)
    if new is not None:
        at[i] = '"' + new.replace('"', '""') + '"'
    return at[i][1:-1].replace('""', '"')


OLD = itertools.count()


def old_form(rng):
    """a managed form of the older layout: the code is in the last list of the form, eight from its end"""
    t = lambda n: [str(rng.randrange(2, 90)) for _ in range(n)]
    n = next(OLD)
    last = ['22' if n % 2 else '1'] + t(n // 2 % 5 + 2) + ['""'] + t(5) + ['0', '0']
    return [rng.choice([['1', last], ['22'] + t(3) + [last], ['1', t(2), [*t(2), last]]])]
