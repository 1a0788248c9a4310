"""Reference executor for a subset of the virtual machine code (integers, arrays, structures, strings, calls)."""
import sys
t = open(sys.argv[1]).read().split('\n')
code = [int(x) for x in t[2].split()]
fun = [int(x) for x in t[3].split()]
g = len(code)
mem = code + [0] * 20000
x = g + 2000
l = x
heap = g + 10000
pc = 4
base = x


def div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


ASG = [lambda a, b: a - div(a, b) * b, lambda a, b: a << b, lambda a, b: a >> b, lambda a, b: a & b, lambda a, b: a ^ b, lambda a, b: a | b,
       lambda a, b: b, lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, div]
BIN = ASG[:6] + [lambda a, b: int(bool(a and b)), lambda a, b: int(bool(a or b)), lambda a, b: int(a == b), lambda a, b: int(a != b),
                 lambda a, b: int(a < b), lambda a, b: int(a > b), lambda a, b: int(a <= b), lambda a, b: int(a >= b)] + ASG[7:]


def adr(d):
    return g - d if d < 0 else l + d


def push(v):
    global x
    x += 1
    mem[x] = v


def pop():
    global x
    x -= 1
    return mem[x + 1]


def arg():
    global pc
    pc += 1
    return mem[pc - 1]


def text(a):
    return ''.join(chr(mem[a + k]) for k in range(mem[a - 1]))


frames = []
for steps in range(200000):
    op = arg()
    if op == 9461:
        sys.stdout.write('' if x == base else '<stack %d>' % (x - base))
        sys.exit(0)
    elif op == 9463:
        pc = mem[pc + 1]
    elif op == 9465:
        frames.append((l, x + 1))
        x += 3
    elif op == 9466:
        n = arg()
        ol, nl = frames.pop()
        e = fun[n if n > 0 else mem[l - n]]
        mem[nl], mem[nl + 1] = ol, pc
        l = nl
        x = l + mem[e + 1] - 1
        pc = e + 3
    elif op in (9467, 9468):
        d = arg() if op == 9467 else 0
        v = [mem[x - d + 1 + k] for k in range(d)]
        x = l - 1
        pc = mem[l + 1]
        l = mem[l]
        for k in v:
            push(k)
    elif op == 9469:
        pc = mem[pc]
    elif op in (9470, 9471):
        n = arg()
        if (pop() == 0) == (op == 9470):
            pc = n
    elif op == 9455:
        push(arg())
    elif op == 9457:
        push(mem[adr(arg())])
    elif op == 9464:
        push(adr(arg()))
    elif op == 9459:
        mem[x] = mem[mem[x]]
    elif op == 9462:
        mem[x] += arg()
    elif op == 9475:
        push(mem[x])
    elif op == 9472:
        d = arg()
        i = pop()
        mem[x] += i * d
    elif op == 9454:
        N, d, dis, pr, us, ini, ins = (arg() for _ in range(7))
        if N == 1 and not ini:
            n = pop()
            mem[heap] = n
            mem[adr(dis)] = heap + 1
            heap += 1 + n * d
        elif not ini:
            sys.exit('unsupported array')
    elif op == 9481:
        push(arg())
        cnt = mem[x]
    elif op == 9477:
        N, d, dis, us = (arg() for _ in range(4))
        n = cnt
        v = [mem[x - n + 1 + k] for k in range(n)]
        x -= n + 1
        mem[heap] = n
        mem[adr(dis)] = heap + 1
        for k in range(n):
            mem[heap + 1 + k] = v[k]
        heap += 1 + n
    elif op == 9304:
        d, n = arg(), arg()
        for k in range(n):
            push(mem[adr(d) + (k if d > 0 else -k) if d > 0 else adr(d) + k])
    elif op in (9306, 9307):
        d = adr(arg()) if op == 9306 else None
        n = arg()
        v = [mem[x - n + 1 + k] for k in range(n)]
        x -= n
        if d is None:
            d = pop()
        for k in range(n):
            mem[d + k] = v[k]
    elif op == 9305:
        n = arg()
        a = pop()
        for k in range(n):
            push(mem[a + k])
    elif op == 9308:
        f, n, tot = arg(), arg(), arg()
        v = [mem[x - tot + 1 + f + k] for k in range(n)]
        x -= tot
        for k in v:
            push(k)
    elif op == 9588:
        a = pop()
        pop()
        push(mem[a - 1])
    elif 9023 <= op <= 9040:
        b = pop()
        mem[x] = BIN[op - 9023](mem[x], b)
    elif 9001 <= op <= 9011 or 9201 <= op <= 9211:
        a = adr(arg())
        v = mem[a] = ASG[op % 100 - 1](mem[a], pop())
        if op < 9100:
            push(v)
    elif 9012 <= op <= 9022 or 9212 <= op <= 9222:
        v = pop()
        a = pop()
        v = mem[a] = ASG[op % 100 - 12](mem[a], v)
        if op < 9100:
            push(v)
    elif 9041 <= op <= 9048 or 9241 <= op <= 9248:
        k = op % 100 - 41
        a = adr(arg()) if k < 4 else pop()
        old = mem[a]
        mem[a] += -1 if k & 1 else 1
        if op < 9100:
            push(mem[a] if k & 2 else old)
    elif op == 9049:
        mem[x] = -mem[x]
    elif op == 9052:
        mem[x] = ~mem[x]
    elif op == 9053:
        mem[x] = int(not mem[x])
    elif op == 9651:
        mem[x] = abs(mem[x])
    elif op == -25:
        n = arg()
        f = text(pop())
        v = [mem[x - n + 1 + k] for k in range(n)]
        x -= n
        sys.stdout.write(f.replace('%i', '%d') % tuple(v) if v else f)
        push(0) if False else None
    elif op == 9453:
        pass
    else:
        sys.exit('unsupported instruction %d at %d' % (op, pc - 1))
sys.exit('endless')
