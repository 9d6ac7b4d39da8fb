"""Our own matcher for shell-style patterns (*, ?, [seq], [!seq]), whole string, case-sensitive."""


def _items(p):
    out, i = [], 0
    while i < len(p):
        c = p[i]
        if c == '[':
            j = p.index(']', i + 2 if p[i + 1] != '!' else i + 3)
            body = p[i + 1:j]
            neg = body.startswith('!')
            if neg:
                body = body[1:]
            chars, k = set(), 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == '-':
                    chars.update(chr(o) for o in range(ord(body[k]), ord(body[k + 2]) + 1))
                    k += 3
                else:
                    chars.add(body[k])
                    k += 1
            out.append(('set', neg, chars))
            i = j + 1
        else:
            out.append(('*',) if c == '*' else ('?',) if c == '?' else ('lit', c))
            i += 1
    return out


def matches(pattern, s):
    pos = {0}
    for it in _items(pattern):
        if it[0] == '*':
            pos = set(range(min(pos), len(s) + 1)) if pos else set()
        else:
            new = set()
            for i in pos:
                if i < len(s):
                    c = s[i]
                    if it[0] == '?' or (it[0] == 'lit' and it[1] == c) or \
                            (it[0] == 'set' and ((c in it[2]) != it[1])):
                        new.add(i + 1)
            pos = new
    return len(s) in pos


def key_matches(pattern, key, control):
    """Control keys may be given without their '.value' suffix"""
    if matches(pattern, key):
        return True
    if control and not pattern.endswith(('.value', '*')):
        return key.endswith('.value') and matches(pattern, key[:-len('.value')])
    return False
