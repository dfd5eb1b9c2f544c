"""Writes harness/src/shapes_gen.rs: the typed query shapes (compile-time tuples)."""
import random
r = random.Random(7)
NT = 16
shapes = []
def add(s):
    s = tuple(s)
    if s not in shapes:
        shapes.append(s)
for t in range(NT):
    add([('R', t)])
    add([('W', t)])
add([('I',)])
add([('I',), ('I',)])
add([('R', 0), ('R', 0)])
add([('R', 3), ('I',), ('R', 3)])
for t in range(NT):
    add([('I',), (r.choice('RW'), t)])
for t in range(0, NT, 2):
    add([(r.choice('RW'), t), ('I',)])
def rnd(n, w_i):
    ts = r.sample(range(NT), n)
    s = [(r.choice('RRW'), t) for t in ts]
    if r.random() < w_i:
        s[r.randrange(n)] = ('I',)
    return s
for n, cnt in [(2, 18), (3, 16), (4, 10), (5, 7), (6, 5), (7, 4), (8, 4), (9, 4), (10, 5)]:
    for _ in range(cnt):
        add(rnd(n, 0.45))
# nested prefixes, so that big shapes have matching sub-shapes
for n in (4, 6, 8, 10):
    add([('W' if i % 2 else 'R', i) for i in range(n)])
    add([('I',)] + [('R' if i % 2 else 'W', i) for i in range(n - 1)])
out = ["// generated by tools/gen_shapes.py"]
def ty(p):
    return {'R': lambda: f'&T{p[1]}', 'W': lambda: f'&mut T{p[1]}', 'I': lambda: 'EcsIds'}[p[0]]()
def pm(p):
    return 'P::I' if p[0] == 'I' else f'P::{p[0]}({p[1]})'
out.append("pub static SHAPES: &[Shape] = &[")
for s in shapes:
    vs = ['x%d' % i for i in range(len(s))]
    out.append(f"    shape!([{', '.join(pm(p) for p in s)}], ({', '.join(ty(p) for p in s)},), ({', '.join(vs)},)),")
out.append("];")
open('/verif/harness/src/shapes_gen.rs', 'w').write('\n'.join(out) + '\n')
print(len(shapes))
