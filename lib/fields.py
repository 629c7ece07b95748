'''Values of tagged event fields that the event specification does not allow.'''

FLAG = ('2', '-1', 'x', '', '1.0', 'True')
NONNEG = ('-1', 'x', '', '1.5', '0x10')
TIME = ('-1.0', '-0.001', 'x', '', '1,5', 'nan', 'inf', '-inf')
STR50 = ('', 'y' * 51)
IP = ('x', '1.2.3', '', '300.1.1.1', '1:2', '(null)')

def int_between(lo, hi):
    r = ['x', '', '1.5']
    if lo is not None:
        r.append(str(lo - 1))
    if hi is not None:
        r.append(str(hi + 1))
    return tuple(r)

def spoil(rng, fields, table, mandatory):
    '''change one field so that the event is malformed; says which'''
    if rng.random() < 0.25:
        k = rng.choice(sorted(mandatory))
        del fields[k]
        return 'no ' + k
    k = rng.choice(sorted(table))
    fields[k] = rng.choice(table[k])
    return '%s=%s' % (k, fields[k][:20])

def spoil_items(rng, items):
    '''break the format of a tagged event; says how'''
    real = [j for j, s in enumerate(items) if s]
    j = rng.choice(real)
    kind = rng.choice(['twice', 'no equals', 'two equals', 'no key', 'space', 'newline', 'nul'])
    k, _, v = items[j].partition('=')
    if kind == 'twice':
        items.insert(rng.randrange(len(items) + 1), items[j])
    elif kind == 'no equals':
        items[j] = k
    elif kind == 'two equals':
        items[j] = items[j] + rng.choice(['=', '=1'])
    elif kind == 'no key':
        items.insert(j, '=' + v)
    elif kind == 'space':
        items[j] = k + '= ' + v
    elif kind == 'newline':
        items[j] = items[j] + rng.choice(['\r', '\n'])
    else:
        items[j] = items[j] + '\0'
    return kind
