#!/usr/bin/env python3
"""show.py <work/P/N-profile dir> <case> <event>: a recorded event in readable form"""
import json, sys, struct
def b(x): return bytes(x)
def val(v):
    t = v.get('t')
    if t == 'msg':
        return v['n'].split('.')[-1] + '{' + ', '.join(f"{e['n']}:" + (val(e['v']) if e['k'] == 'v' else 'UNK' + json.dumps(e['u'])) for e in v['m']) + '}'
    if t == 'list': return '[' + ', '.join(map(val, v['l'])) + ']'
    if t == 'map': return '{' + ', '.join(val(k) + '=>' + val(x) for k, x in v['p']) + '}'
    if t in ('none', 'panic', 'deep'): return t
    s = bytes(v['s'])
    if t in ('string', 'bytes'): return t[0] + repr(s)[1:]
    if t == 'f32': return repr(struct.unpack('<f', s)[0]) + 'f'
    if t == 'f64': return repr(struct.unpack('<d', s)[0])
    return t + ':' + str(int.from_bytes(s, 'little', signed=t in ('i32', 'i64', 'enum')))
def node(n):
    j = n['j']
    if j == 'str': return repr(b(n['s']))[1:]
    if j == 'num': return (b(n['iv'][0]).decode() if n['iv'] else repr(struct.unpack('<d', b(n['d']))[0])) + ('' if n['pl'] else '(f)')
    if j == 'bool': return str(n['b']).lower()
    if j == 'arr': return '[' + ', '.join(map(node, n['a'])) + ']'
    if j == 'obj': return '{' + ', '.join(b(k).decode('utf8', 'replace') + ': ' + node(x) for k, x in n['o']) + '}'
    return j
def show(e):
    out = {}
    for k, v in e.items():
        if isinstance(v, dict) and 't' in v: out[k] = val(v)
        elif isinstance(v, dict) and 'j' in v: out[k] = node(v)
        elif k in ('tx', 'txt'): out[k] = repr(b(v))
        else: out[k] = v
    return '  '.join(f'{k}={v}' for k, v in out.items())
if __name__ == '__main__':
    d, c = sys.argv[1], int(sys.argv[2])
    for i, l in enumerate(open(d + '/cases.ndjson'), 1):
        if i == c:
            ev = json.loads(l)['ev']
            sel = [int(x) for x in sys.argv[3:]] or range(1, len(ev) + 1)
            for k in sel:
                print(k, show(ev[k - 1])[:3000])
