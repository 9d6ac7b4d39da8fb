"""select / deselect"""
from ..common import close_all, covered, narrow_strategy, narrow_trains, open_run_dir
from ..globs import key_matches, matches
from ..runspec import run_specs, same, some_long

PROPERTY = 'C06'
QUICK, THOROUGH = 5000, 50000
RULE = ('Generated runs and sequences of up to 6 operations (select / deselect with one glob pair, '
        'a list of pairs or a dict; select_trains; invalid requests). After each, sources and keys '
        'are compared with a set model (own glob matcher), older collections are compared with '
        'what they were, and at the end the remaining fields are read. Non-trivial: at least two '
        'operations succeeded and changed the set of fields.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'patterns use *, ?, [seq] and [!seq] with ordinary characters',
               'a source of which no key or no file is left may or may not stay listed']

SRC_GLOBS = ['*', '*', '*XGM*', '*/DET/*', '*/DET/?CH0:xtdf', '*/DET/1*', 'A/B/C*', 'A/B/?-1',
             'A/B/C[-_]1', 'A/B/C[!-]1', 'fxe_*', 'FXE_*', '[!A]*', '*:*', '*:out', '*:out?',
             'SA[0-9]_*', '*DOOCS/MAIN', 'SA1_XTD2_XGM/DOOCS/MAIN', 'A/B/C:out', '*/[a-z]*/*']
KEY_GLOBS = [None, '*', '*.value', '*.timestamp', 'beamPosition.*', 'beamPosition.i[xy]Pos',
             'beamPosition.ixPos', 'beamPosition.i?Pos.value', 'flux', 'flux?', 'ixPos', '*Pos',
             'data.*', 'image.*', '*.x', 'image.data', 'data*', 'xvalue', '*value', 'x*',
             'state.a.b.c', '*.raw', '*[!e]', 'data.value', 'digitizers.*.samples', '?lux',
             '*.pixels', '*.value*']


def strategy(tier):
    from hypothesis import strategies as st
    # ['rel', field, how to make a source pattern from it, key pattern, position]
    rel = st.tuples(st.just('rel'), st.integers(0, 40), st.integers(0, 6), st.integers(0, 8),
                    st.integers(0, 60)).map(list)
    pair = st.one_of(
        st.tuples(st.sampled_from(SRC_GLOBS), st.sampled_from(KEY_GLOBS)).map(list), rel, rel)
    # dict: [[source index, [key indexes] (empty: all)]]
    dct = st.lists(st.tuples(st.integers(0, 20), st.lists(st.integers(0, 20), max_size=3)).map(list),
                   min_size=1, max_size=3)
    verb = st.sampled_from(['select', 'select', 'deselect'])
    op = st.one_of(
        st.tuples(verb, st.just('glob'), pair),
        st.tuples(verb, st.just('list'), st.lists(pair, min_size=1, max_size=3)),
        st.tuples(verb, st.just('dict'), dct),
        st.tuples(verb, st.just('dict'), dct),
        st.tuples(st.just('trains'), st.just(''), narrow_strategy().map(lambda d: d['trains'])),
        st.tuples(verb, st.just('bad'), st.integers(0, 11)),
    ).map(list)
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=5, max_files=2), 60),
        'ops': st.lists(op, min_size=3, max_size=10 if tier == 'thorough' else 6),
    })


def pattern(name, how, pos):
    p = pos % len(name)
    return [name, '*', name[:p] + '*', '*' + name[p:], name[:p] + '?' + name[p + 1:],
            name[:p] + '[' + name[p] + '~]' + name[p + 1:],
            name[:p] + '[!~]' + name[p + 1:]][how % 7]


def resolve(pair, state):
    if pair[0] != 'rel':
        return pair
    _, i, hs, hk, pos = pair
    fields = sorted(state.fields)
    if not fields:
        return ['*', '*']
    s, k = fields[i % len(fields)]
    if hk == 7:
        kg = None
    elif hk == 8 and k.endswith('.value'):
        kg = k[:-len('.value')]
    else:
        kg = pattern(k, hk, pos + i)
    return [pattern(s, hs, pos), kg]


class State:
    """fields: the (source, key) pairs which are selected; unsure: sources which may or may not be
    listed (no keys or no files left); trains"""

    def __init__(self, model, fields, unsure, trains):
        self.model, self.fields, self.unsure, self.trains = model, fields, unsure, trains

    def sure_fields(self):
        return {(s, k) for s, k in self.fields if s not in self.unsure}

    def keys(self, s):
        return {k for s2, k in self.fields if s2 == s}

    def check(self, dc, what):
        m = self.model
        srcs = set(dc.all_sources)
        sure = {s for s, _ in self.sure_fields()}
        allowed = {s for s, _ in self.fields} | self.unsure
        assert sure <= srcs <= allowed, '%s: sources %s, expected %s (+ maybe %s)' % (
            what, sorted(srcs), sorted(sure), sorted(allowed - sure))
        assert set(dc.control_sources) == srcs & m.control(), what
        assert set(dc.instrument_sources) == srcs & m.instrument(), what
        for s in srcs:
            assert set(dc.keys_for_source(s)) == self.keys(s), '%s: keys of %s: %s, expected %s' % (
                what, s, sorted(dc.keys_for_source(s)), sorted(self.keys(s)))
        assert list(dc.train_ids) == self.trains, what


def check(case, ctx):
    from karabo_data import SourceNameError, by_id, by_index
    from karabo_data.exceptions import PropertyNameError
    run, model, paths = open_run_dir(case['run'], ctx)
    # A source in files none of which has trains is still listed
    state = State(model, set(model.fields()), set(), list(model.trains))
    dc = run
    state.check(dc, 'opened run')
    history = [(dc, state)]
    changed = 0

    for n, (verb, form, arg) in enumerate(case['ops']):
        what = 'op %d %s %s %s' % (n, verb, form, arg)
        if verb == 'trains':
            trains, req = narrow_trains(state.trains, arg)
            if req is None:
                continue
            dc2 = dc.select_trains(by_index[req[1]] if req[0] == 'index' else by_id[req[1]])
            unsure = state.unsure | {s for s in model.sources if not covered(model, s, trains)}
            state2 = State(model, state.fields, unsure, trains)
        elif form == 'bad':
            bad(dc, verb, arg, state, model)
            ctx.label('invalid request')
            continue
        else:
            if form == 'glob':
                arg = resolve(arg, state)
            elif form == 'list':
                arg = [resolve(p, state) for p in arg]
            matched, must_fail, may_fail, call = request(state, form, arg)
            try:
                dc2 = getattr(dc, verb)(*call)
                # The request belongs to the caller, who may use it again
                spoil(call[0])
            except (ValueError, KeyError) as e:
                assert must_fail or may_fail, '%s raised %r' % (what, e)
                if form == 'dict':
                    assert isinstance(e, (SourceNameError, PropertyNameError)) or may_fail, repr(e)
                else:
                    assert isinstance(e, ValueError), repr(e)
                ctx.label('refused')
                continue
            assert not must_fail, '%s: should have been refused' % what
            if verb == 'select':
                fields = state.fields & matched
            else:
                fields = state.fields - matched
            left = {s for s, _ in fields}
            emptied = {s for s, _ in state.fields} - left
            if verb == 'select':
                # sources not selected at all must be gone
                emptied &= set(call_sources(state, form, arg))
                unsure = (state.unsure | emptied) & set(call_sources(state, form, arg))
            else:
                unsure = state.unsure | emptied
            if fields != state.fields:
                changed += 1
            state2 = State(model, fields, unsure, state.trains)
            ctx.label('%s %s' % (verb, form))
        state2.check(dc2, what)
        for i, (d, s) in enumerate(history):
            s.check(d, 'collection %d after %s' % (i, what))
        history.append((dc2, state2))
        dc, state = dc2, state2
    ctx.nontrivial(changed >= 2)
    if changed:
        ctx.label('%d effective selections' % changed)

    # Whatever is left reads as before
    for s, k in sorted(state.sure_fields()):
        want, tids = model.array(s, k, state.trains)
        arr = dc.get_array(s, k)
        same(arr.values, want, 'get_array(%s, %s) after selection' % (s, k))
        same(arr.coords['trainId'].values, tids, 'train IDs')
    for t in state.trains[:2]:
        _, data = dc.train_from_id(t)
        for s, k in state.sure_fields():
            e = model.entries(s, k, t)
            if len(e):
                same(data[s][k], e[0] if len(e) == 1 else e, 'train data')
        got = {(s, k) for s in data for k in data[s] if k != 'metadata'}
        assert got <= state.fields, got - state.fields
    close_all(run)


def spoil(arg):
    if isinstance(arg, dict):
        for i, keys in enumerate(arg.values()):
            if i % 2:
                keys.clear()
            else:
                keys.add('no.such.key')
        arg.pop(min(arg))
    elif isinstance(arg, list):
        arg.clear()


def call_sources(state, form, arg):
    """Sources which a request names"""
    srcs = sorted({s for s, _ in state.fields} | state.unsure)
    if form == 'dict':
        return {srcs[i % len(srcs)] for i, _ in arg} if srcs else set()
    pairs = [arg] if form == 'glob' else arg
    return {s for s in srcs if any(matches(p[0], s) for p in pairs)}


def request(state, form, arg):
    """(matched fields, must fail, may fail, call arguments)"""
    model = state.model
    ctrl = model.control()
    if form == 'dict':
        srcs = sorted({s for s, _ in state.fields} | state.unsure)
        if not srcs:
            return set(), False, True, ({'NO/SUCH/SOURCE': set()},)
        d, matched, may_fail = {}, set(), False
        for i, keys in arg:
            s = srcs[i % len(srcs)]
            have = sorted(state.keys(s))
            if s in state.unsure:
                may_fail = True
            if s in d:
                continue
            if not keys or not have:
                d[s] = set()
                matched |= {(s, k) for k in have}
            else:
                d[s] = {have[j % len(have)] for j in keys}
                matched |= {(s, k) for k in d[s]}
        return matched, False, may_fail, (d,)

    pairs = [arg] if form == 'glob' else arg
    matched, must_fail, may_fail = set(), False, False
    for sg, kg in pairs:
        kg2 = '*' if kg is None else kg
        m = {(s, k) for s, k in state.fields if matches(sg, s) and key_matches(kg2, k, s in ctrl)}
        matched |= m
        if not {s for s, _ in m} - state.unsure:
            # nothing certainly there matches
            if m or any(matches(sg, s) for s in state.unsure):
                may_fail = True
            else:
                must_fail = True
    if form == 'glob':
        call = (arg[0],) if arg[1] is None else (arg[0], arg[1])
    else:
        call = ([(sg, '*' if kg is None else kg) for sg, kg in pairs],)
    return matched, must_fail, may_fail, call


def bad(dc, verb, n, state, model):
    from karabo_data import SourceNameError
    f = getattr(dc, verb)
    if n < 4:
        arg = [5, None, ('*', '*'), {'a', 'b'}][n]
        errors = TypeError
        call = (arg,)
    elif n < 6:
        call = ({'NO/SUCH/SOURCE': set() if n == 4 else {'x.value'}},)
        errors = SourceNameError
    elif n < 8:
        gone = sorted(set(model.sources) - {s for s, _ in state.fields} - state.unsure)
        if not gone:
            return
        call = ({gone[0]: set() if n == 6 else {sorted(model.keys(gone[0]))[0]}},)
        errors = SourceNameError
    elif n == 8:
        call, errors = ('NO/SUCH/*',), ValueError
    elif n == 9:
        call, errors = ('*', 'no.such.key*'), ValueError
    elif n == 10:
        call, errors = ([('*', 'no.such.key')],), ValueError
    else:
        # keys which are not there (any more) cannot be selected
        if verb != 'select' or not state.sure_fields():
            return
        s = sorted(state.sure_fields())[0][0]
        gone = sorted(model.keys(s) - state.keys(s)) or ['no.such.key']
        try:
            d2 = f({s: {gone[0]}})
        except KeyError:
            return
        assert s not in d2.all_sources or gone[0] not in d2.keys_for_source(s), \
            '%s %s is back' % (s, gone[0])
        return
    try:
        f(*call)
    except errors:
        return
    except Exception as e:
        raise AssertionError('%s(%r) raised %r, expected %r' % (verb, call, e, errors)) from e
    raise AssertionError('%s(%r) was accepted' % (verb, call))
