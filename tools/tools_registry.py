SPECS = {p: (None, None) for p in 'C01 C02 C03 C04 C05 C06 C10 C11 C12 C18 C19 C21'.split()}


def _both(spec, more='random recorded histories'):
    return ('TLA+ specification spec/%s.tla, model checked; its transitions, enumerated by TLC, are replayed in the real code and these and %s '
            'of the real code are validated step by step against it with TLC (trace validation)' % (spec, more), None)


SPECS['C07'] = _both('Observers')
SPECS['C16'] = _both('IndexOps')
SPECS['C08'] = _both('Cache')
SPECS['C09'] = _both('Cache')
SPECS['C13'] = _both('Optimize', 'recorded runs with restarts')
SPECS['C14'] = _both('Failures', 'recorded evaluations')
SPECS['C15'] = _both('Checkgrad', 'recorded gradient checks')
SPECS['C20'] = _both('Optimize and spec/SCG', 'recorded runs with and without reporting')
SPECS['C17'] = _both('Transform', 'recorded values and random histories')
SPECS['C22'] = _both('ObsAr')
NOT = {}
