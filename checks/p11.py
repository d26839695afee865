import builtins
import contextlib
import io
import itertools

from aideme.explore.command_line_explore import CommandLineExploration
from aideme.utils import metric_logger
from checks.pool import *
from mc.choice import explore

PROPERTY = 'P11'
RULE = 'every input string up to the length of the shard over an alphabet of digits, separators and other characters, answered to a request ' \
       'for 1, 2 or 3 labels; and every sequence of answers of the menu to complete sessions; accepted labels, training data and end of the ' \
       'session are compared with a reference dialogue'
ASSUMPTIONS = ['learner is a recording stub', 'at most 3 points', 'standard input has no end of file']

ALPHABET = ['0', '1', ' ', '2', 'a', '\t', '-', 'y', '.']


class Dialogue:
    """ answers prompts; which prompt is asked is recognised by its text """
    def __init__(self, script):
        self.prompts, self.answers, self.script = [], [], script

    def __call__(self, prompt=''):
        self.prompts.append(prompt)
        a = self.script(prompt, self)
        self.answers.append(a)
        if len(self.prompts) > 200:
            raise AssertionError('endless dialogue')
        return a


@contextlib.contextmanager
def answering(dialogue):
    saved = builtins.input
    builtins.input = dialogue
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        builtins.input = saved


def parse(s, k):
    """ reference: exactly one 0 or 1 for every point, separated by blanks """
    tokens = s.split(' ')
    tokens = [t for t in tokens if t != '']
    return [int(t) for t in tokens] if len(tokens) == k and all(t in ('0', '1') for t in tokens) else None


def configs(tier):
    res = []
    for k in (1, 2, 3):
        length = (4 if tier == 'quick' else 5)
        for c in ALPHABET:
            res.append({'mode': 'strings', 'k': k, 'first': c, 'length': length})
        res.append({'mode': 'strings', 'k': k, 'first': '', 'length': 0})
        res.append({'mode': 'binary', 'k': k, 'length': 8 if tier == 'quick' else 10})
    for n in (2, 3):
        for sampler in (None, ('random', 2), ('fixed', [0, 1])):
            for criteria in ([], [('max', 0)], [('max', 1)], [('thr', 2)]):
                for skip in (1, 2):
                    res.append({'mode': 'session', 'n': n, 'sampler': sampler, 'criteria': criteria, 'skip': skip})
        for sub in range(1, n + 2):
            res.append({'mode': 'session', 'n': n, 'sampler': None, 'criteria': [], 'skip': 1, 'subsample': sub})
    return res


def run(cfg, stats):
    if cfg['mode'] == 'session':
        return run_session(cfg, stats)
    alphabet = ALPHABET if cfg['mode'] == 'strings' else ['0', '1', ' ']
    for length in range(0, cfg['length'] + 1):
        if cfg['mode'] == 'strings':
            if length == 0:
                words = [''] if cfg['first'] == '' else []
            else:
                words = (cfg['first'] + ''.join(w) for w in itertools.product(alphabet, repeat=length - 1))
        else:
            words = (''.join(w) for w in itertools.product(alphabet, repeat=length)) if length > 4 else []
        for word in words:
            one_string(cfg['k'], word, stats)


class Batch(RecordingLearner):
    """ proposes the last k unlabeled points at once """
    def __init__(self, k):
        super().__init__('down')
        self.k = k

    def next_points_to_label(self, data, subsample=None):
        return data.from_index(sorted(data.unlabeled.index.tolist())[::-1][:self.k])


def one_string(k, word, stats):
    """ session in which the first two label requests are answered by word, further ones by a valid answer """
    fallback = ' '.join(str((j + 1) % 2) for j in range(k))
    asked = []

    def script(prompt, d):
        if 'y/n' in prompt:
            return 'y'
        asked.append(prompt)
        return word if len(asked) <= 2 else fallback

    learner = Batch(k)
    metric_logger.flush()
    expl = CommandLineExploration(convergence_criteria=max_iter_reached(0))
    with answering(Dialogue(script=script)):
        expl.run(make_data(k + 1), learner)

    expected = parse(word, k)
    stats.executions += 1
    stats.step(len(asked))
    stats.state(k, word)
    stats.outcome('accepted' if expected is not None else 'rejected')
    if len(asked) != (1 if expected is not None else 3):
        return stats.violation('accepts' if expected is None else 'rejects', 'input {!r} for {} labels: asked {} times'.format(word, k, len(asked)), word)
    answer = expected if expected is not None else [int(c) for c in fallback.split()]
    want = {100 + k - j: lb for j, lb in enumerate(answer)}  # first coordinates of points, in the order they were shown
    fits = [c for c in learner.log if c[0] == 'fit']
    got = {x[0]: lb for x, lb in zip(*fits[0][1:])} if fits else None
    if got != want or len(fits) != 1:
        stats.violation('labels', 'input {!r} for {} labels is understood as {}, expected {}'.format(word, k, got, want), word)


CONTINUE = ['y', 'n', 'yes', '']
LABELS = {1: ['1', '0', '11', ' 1 '], 2: ['1 0', '0 1', '0 0', '10'], 3: ['1 0 1', '0 0 1', '1 1']}


def run_session(cfg, stats):
    n = cfg['n']

    def execution(ch):
        log = []  # ('continue', answer) or ('labels', answer)
        refused = [0]

        def script(prompt, d):
            kind = 'continue' if 'y/n' in prompt else 'labels'
            if kind == 'continue':
                menu = CONTINUE if 'subsample' not in cfg and sum(a not in ('y', 'n') for q, a in log if q == 'continue') < 2 else CONTINUE[:2]
            else:
                k = prompt.count('.0]') or 1
                only_both = cfg['sampler'] is not None and cfg['sampler'][0] == 'fixed' and k == 2  # a fixed sampler can be asked only once
                menu = [a for a in LABELS[min(k, 3)] if ('subsample' not in cfg and refused[0] < 2 or parse(a, k) is not None) and not (only_both and a == '0 0')]
            a = ch.pick(menu)
            if kind == 'labels' and parse(a, k) is None:
                refused[0] += 1
            log.append((kind, a))
            return a

        X = make_data(n)
        learner = RecordingLearner('down')
        callback = StateCallback('cb')
        criteria = [max_iter_reached(c[1]) if c[0] == 'max' else metric_reached_threshold('cb', c[1]) for c in cfg['criteria']]
        metric_logger.flush()
        metric_logger.log_metric('cb', 99)  # left by something else
        more = {'subsampling': cfg['subsample']} if 'subsample' in cfg else {}
        expl = CommandLineExploration(initial_sampler=make_sampler(cfg['sampler'], None, list(range(n))), callback=callback,
                                      convergence_criteria=criteria, **more, **({} if cfg['skip'] == 1 else {'callback_skip': cfg['skip']}))
        with controlled(ch, max_perm=5), answering(Dialogue(script=script)):
            expl.run(X, learner)
        stats.state(cfg, log)
        check_session(cfg, log, learner, callback, stats)

    explore(execution, stats)


def check_session(cfg, log, learner, callback, stats):
    """ replays the dialogue on a reference automaton """
    n = cfg['n']

    def fail(key, why):
        stats.violation(key, '{}\nconfig: {}\ndialogue: {}\nlearner: {}'.format(why, cfg, log, learner.log), {'dialogue': log})

    fits = [c for c in learner.log if c[0] == 'fit']
    pos, count, iters, given, metric, trained = 0, 0, 0, [], None, 0
    ranked = list(learner.rank_args)
    while True:
        done = count == n
        for c in cfg['criteria']:
            done |= iters > c[1] if c[0] == 'max' else (metric is not None and metric >= c[1])
        if done:
            stats.outcome('converged')
            break

        while pos < len(log) and log[pos][0] == 'continue' and log[pos][1] not in ('y', 'n'):
            pos += 1
        if pos >= len(log) or log[pos][0] != 'continue':
            return fail('dialogue', 'the user should be asked to continue at step {}'.format(pos))
        pos += 1
        if log[pos - 1][1] == 'n':
            stats.outcome('user stopped')
            break

        exploring = cfg['sampler'] is None or {0, 1} == set(given)
        k = 1 if exploring else (len(cfg['sampler'][1]) if cfg['sampler'][0] == 'fixed' else min(cfg['sampler'][1], n - count))
        if exploring:
            size = min(cfg.get('subsample', n), n - count)
            if not ranked or len(ranked[0]) != size or len(set(ranked[0])) != size:
                return fail('ranked-points', 'learner ranked {} at iteration {}, expected {} points'.format(ranked[:1], iters + 1, size))
            ranked.pop(0)
        while pos < len(log) and log[pos][0] == 'labels' and parse(log[pos][1], k) is None:
            pos += 1
        if pos >= len(log) or log[pos][0] != 'labels':
            return fail('dialogue', 'the user should be asked for {} labels at step {}'.format(k, pos))
        new = parse(log[pos][1], k)
        pos += 1
        given += new
        count += k
        iters += 1

        if cfg['sampler'] is None or {0, 1} == set(given):
            if trained >= len(fits):
                return fail('not-trained', 'learner was not trained at iteration {}'.format(iters))
            X, y = fits[trained][1:]
            trained += 1
            if len(X) != count or sorted(y) != sorted(given) or len({x[0] for x in X}) != count:
                return fail('training-set', 'learner was trained with {} {} at iteration {}, labels given were {}'.format(X, y, iters, given))

        done = count == n or any(c[0] == 'max' and iters > c[1] for c in cfg['criteria'])
        metric = count if (iters - 1) % cfg['skip'] == 0 or done else None

    if ranked:
        return fail('ranked-points', 'learner ranked more points: {}'.format(ranked))
    if pos != len(log):
        return fail('dialogue', 'unexpected questions after the end: {}'.format(log[pos:]))
    if trained != len(fits):
        return fail('trained-too-often', 'learner was trained {} times, expected {}'.format(len(fits), trained))
