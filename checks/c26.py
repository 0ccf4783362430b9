# -*- coding: utf-8 -*-
"""C26: postagger Dictionary, history + executable model."""
import copy
import os
import shutil
import tempfile

RULE = '''random dictionaries (empty, empty classes, a word under several tags) and histories of up to 25 edits (add, forced add, refused
add, remove words, remove a tag, remove from an unknown tag) with arguments given as one string, list, tuple, set, frozenset or dict keys view, save/reload
in between, every lookup compared with a tag-to-set model after each edit and every caller-supplied collection compared with its snapshot.
Non-trivial: a history with an add and an effective removal; keyed by the history.'''

WORDS = ['가', '나다', '가나다', '라', '마바사아', '이', 'ab', '中', '나다라마바사아자차', '가 나', ' 가', '']
TAGS = ['Noun', 'Verb', 'Josa', 'Adverb']


def run(m):
    from soynlp.postagger import Dictionary
    m.require('add', 'forced_new_tag', 'refused', 'remove', 'effective_remove', 'remove_tag', 'remove_unknown', 'reload',
              'list', 'set', 'tuple', 'str', 'multi_tag', 'empty_words')
    scratch = tempfile.mkdtemp(prefix='verif_c26_')

    def body(c):
        rng = c.rng
        tags = TAGS[:rng.randrange(0, 4)]
        src = {}
        for t in tags:
            ws = rng.sample(WORDS, rng.randrange(0, 6))
            src[t] = rng.choice((list, set, tuple, frozenset))(ws)
        supplied = []          # (live object, snapshot)

        def give(o):
            supplied.append((o, copy.deepcopy(o)))
            return o
        model = {t: set(ws) for t, ws in src.items()}
        hist = [('init', {t: sorted(ws) for t, ws in src.items()})]
        c.note(history=hist)
        d = Dictionary(give(src))
        flags = set()

        def state(d):
            for w in WORDS + ['없는말', '']:
                got = d.get_pos(w)
                want = {t for t, ws in model.items() if w in ws}
                m.eq(sorted(got), sorted(want), 'get_pos', word=w, history=hist)
                m.seen('multi_tag', len(want) > 1)
                for t in TAGS + ['None']:
                    m.eq(bool(d.word_is_tag(w, t)), t in want, 'word_is_tag', word=w, tag=t, history=hist)
            longest = max([0] + [len(w) for ws in model.values() for w in ws])
            m.expect(d.max_length >= longest, 'max_length', got=d.max_length, longest=longest, history=hist)
            for live, snap in supplied:
                m.expect(live == snap and type(live) is type(snap), 'argument-modified', got=live, want=snap, history=hist)
        state(d)
        m.eq(d.max_length, max([0] + [len(w) for ws in model.values() for w in ws]), 'initial-max_length')
        for step in range(rng.randrange(1, 26)):
            op = rng.choice(('add', 'add', 'force', 'remove', 'remove', 'drop', 'reload', 'mutate'))
            tag = rng.choice(TAGS)
            ws = [rng.choice(WORDS) for _ in range(rng.choice((0, 1, 1, 2, 4)))]
            form = rng.choice(('str', 'list', 'set', 'tuple', 'frozenset'))
            if form == 'str':
                ws = [w for w in ws if w and ' ' not in w]
            arg = ' '.join(ws) if form == 'str' else {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[form](ws)
            if op in ('add', 'force', 'remove'):
                give(arg)
                m.seen(form)
                m.seen('empty_words', not ws)
            hist.append((op, tag, form, ws))
            if op in ('add', 'force'):
                try:
                    d.add_words(tag, arg, force=True) if op == 'force' else d.add_words(tag, arg)
                    m.expect(op == 'force' or tag in model, 'unknown-tag-accepted', history=hist)
                    m.seen('forced_new_tag', tag not in model)
                    model.setdefault(tag, set()).update(ws)
                    m.seen('add')
                    flags.add('add')
                except ValueError:
                    m.expect(op == 'add' and tag not in model, 'add-refused', history=hist)
                    m.seen('refused')
            elif op in ('remove', 'drop'):
                try:
                    d.remove_words(tag, arg) if op == 'remove' else d.remove_words(tag)
                    m.expect(tag in model, 'unknown-tag-removal-accepted', history=hist)
                    if op == 'remove':
                        if model.get(tag, set()) & set(ws):
                            m.seen('effective_remove')
                            flags.add('remove')
                        model[tag] = model.get(tag, set()) - set(ws)
                        m.seen('remove')
                    else:
                        model.pop(tag, None)
                        m.seen('remove_tag')
                except ValueError:
                    m.expect(tag not in model, 'removal-refused', history=hist)
                    m.seen('remove_unknown')
            elif op == 'reload':
                p = os.path.join(scratch, 'd%d.json' % (c.index % 4))
                d.save(p)
                state(d)
                d2 = Dictionary(p)
                state(d2)
                if rng.random() < .3:
                    d3 = Dictionary({'Noun': ['가']})
                    d3.load(p)
                    state(d3)
                d = d2
                m.seen('reload')
            elif supplied:
                # the caller edits a collection it passed earlier; the dictionary must not follow
                i = rng.randrange(len(supplied))
                live, _ = supplied[i]
                if isinstance(live, list):
                    live.append('덧붙임')
                elif isinstance(live, set):
                    live.add('없는말')
                elif isinstance(live, dict):
                    live['Verb' if 'Verb' in model else 'Extra'] = {'없는말'}
                supplied[i] = (live, copy.deepcopy(live))
            state(d)
        if flags == {'add', 'remove'}:
            m.nontrivial(hist)
    try:
        m.each('histories', m.n(1500, 30000), body)

        def missing(c):
            try:
                Dictionary(os.path.join(scratch, 'does-not-exist.json'))
                m.expect(False, 'missing-file-accepted')
            except ValueError:
                m.decisions += 1
        m.each('missing', 1, missing)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
