"""Concrete module texts for line sequences of spec/Areas.tla, and back."""
import os

CODE = ['Процедура А() Экспорт\n', '\tБ = 1;\n', '\n', '   \n', '// #Область include_core_zzz\n', '\t|#КонецОбласти\n',
        'Сообщить("#Область include_a_b");\n', '&НаСервере\n', 'Возврат; //КонецОбласти\n', ' // DynamicDirective\n',
        'x' * 3000 + '\n', 'a = "ёЁ😀";  \n', 'КонецПроцедуры\n', '&НаКлиенте // комментарий\n', '\u2028 y\n',
        '//v8unpack #Область include_x\n', 'f(1);\t\n', '~Метка:\n', '\x0c\n', '\x1f\x85 z\n',
        'а = "б & в"; //DynamicDirective\n']
DIRL = ['#Если Сервер Тогда\n', '\t#КонецЕсли\n', '#Использовать x\n', '#Region Abc\n', '#Вставка\n', '# Область y\n']
OPEN = ['#Область Служебная\n', '\t#Область Имя // include_x\n', '#Областьinclude\n', '#Область includ_x\n',
        '  #Область ПрограммныйИнтерфейс\n', '#Область  include_core_x\n']
END = ['#КонецОбласти\n', '\t#КонецОбласти\n', '#КонецОбласти // include_x\n', '  #КонецОбласти  \n']
DYN = ['//DynamicDirective\n', '//DynamicDirective все\n', '\t//DynamicDirective\n', '        //DynamicDirective с отступом  \n',
       '//DynamicDirective // &НаСервере\n']
DIRS = {'K': '&НаКлиенте', 'S': '&НаСервереБезКонтекста', '': ''}
SHAPES = ['core_form_%s', '%s', '_up_%s', 'core_%s', 'общее_Код_%s', 'lib_a b_%s', '__%s', 'core_%s', 'д_е_е_п_%s']


class Concrete:
    """One product: a fixed mapping line token <-> text line."""

    def __init__(self, rng, shapes=SHAPES):
        self.rng = rng
        self.text = {}
        self.token = {}
        self.names = {}
        self.shapes = shapes
        self.used = set()
        self.pools = {'code': list(CODE), 'dir': list(DIRL), 'dyn': list(DYN), 'open': list(OPEN), 'end': list(END)}
        for p in self.pools.values():
            rng.shuffle(p)

    def area(self, n):
        """concrete name of area n"""
        if n not in self.names:
            if 'root' not in self.names.values() and self.rng.random() < 0.05:
                self.names[n] = 'root'
                return 'root'
            self.names[n] = self.rng.choice(self.shapes) % ('об%s%d' % (n, len(self.names)))
        return self.names[n]

    def line(self, tok):
        k, n, d = tok
        key = (k, n, d)
        if key not in self.text:
            if k in ('inc', 'incr'):
                t = self.rng.choice(['', '', '\t', '  ']) + ('#Область include_' if k == 'inc' else '#Область includr_') \
                    + self.area(n) + (' //' + DIRS[d] if d else '') + '\n'
            elif k == 'dyn':
                base = self.pools['dyn'].pop()
                text = base.lstrip()
                for x in DIRS:
                    self._put((k, n, x), base[:len(base) - len(text)] + (DIRS[x] + ' ' if x else '') + text)
                return self.text[key]
            else:
                t = self.pools[k].pop()
            self._put(key, t)
        return self.text[key]

    def _put(self, key, t):
        self.text[key] = t
        self.token[t] = list(key)
        self.text[(key[0], key[1] + '!', key[2])] = t[:-1]
        if t[:-1]:
            self.token[t[:-1]] = [key[0], key[1] + '!', key[2]]

    def lines(self, text):
        out = []
        for ln in text.split('\n'):
            out.append(ln + '\n')
        last = out.pop()[:-1]
        if last:
            out.append(last)
        return [self.token.get(x, ['?', x[:60], '']) for x in out]


def vary(rng, toks, ends=True):
    """lines of the model -> token triples, with end lines of several spellings and perhaps no final line end"""
    out = []
    for x in toks:
        k, n, d = x['k'], x['n'], x['d']
        if k == 'end':
            n = rng.choice(['e', 'e2'])
        elif k == 'open':
            n = rng.choice(['o', 'o2', 'o3'])
        elif k == 'dir':
            n = rng.choice(['p', 'p2'])
        elif k == 'dyn':
            n = rng.choice(['y', 'y2'])
        out.append([k, n, d])
    return out


def area_path(name, module_dir, descent=None):
    """Where the documentation puts the file of an area: relative to the source folder."""
    parts = name.split('_')
    if len(parts) == 1:
        return os.path.join(module_dir, parts[0] + '.bsl')
    up = '..' if descent is None else os.path.join('..', '..')
    return os.path.join(up, *['..' if x == '' else x for x in parts[:-1]], parts[-1] + '.bsl')


def area_files(cx, toks, folder, descent=None, renamed=None):
    """{area: path of its file relative to the source folder} of the module in `folder`; renamed: "Области include" """
    res, stack = {}, [folder]
    for k, n, _ in toks:
        if k in ('inc', 'incr'):
            p = area_path((renamed or {}).get(cx.area(n), cx.area(n)), stack[-1], descent)
            res.setdefault(n, p)
            stack.append(os.path.dirname(p))
        elif k == 'open':
            stack.append(stack[-1])
        elif k == 'end':
            stack.pop()
    return res
