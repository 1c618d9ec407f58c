"""Source of properties.jsonl and MANIFEST.json:  python3 spec.py"""
import json
import os

B = 'package/inference/'
PIE = B + 'pie/'


def P(id, title, statement, over, text, why, mech, note=None, na=None):
    files = sorted({w for n, w in mech})
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, na=na)


PROPS = [
    P('P01', 'A parameter value never leaves its declared range',
      'Once a range is declared for a parameter, every way of giving it a value (assignment, fixing, starting a variation, '
      'setting a varying value, declaring stepping ends, restoring a snapshot) either accepts a value inside the range, which '
      'is then the value read back, or raises a range error and leaves value, range and status as they were. Both end points count as '
      'inside, whatever order the two limits were given in. Requests that are incomplete or do not fit the status (a variation without '
      'range or step, setting the varying value of a parameter that does not vary) are refused and change nothing.',
      ['inputs', 'histories'], 'all ranges, all values, all routes that set a value, any earlier status',
      'tests assign a few in-range literals; whether a route forgets the check, or compares with the wrong limit, shows only '
      'for values and ranges they do not sample',
      [('RealParamHandler.fix/set_value/range/vary/linstep/logstep', PIE + 'realparam.py'),
       ('Param.__set__', PIE + 'param.py')]),
    P('P02', 'Parameter status and the three status lists always agree',
      'After every sequence of fix, vary, step and assignment requests, each parameter has exactly the status last requested '
      'and appears exactly once, in the list of parameters with that status and in no other. Adjusting a parameter without '
      'changing its status keeps its place in the list.',
      ['histories'], 'every history of up to three status requests on one and on three interleaved parameters',
      'the lists are maintained incrementally by a transition table; a wrong transition shows only after a particular '
      'sequence of requests',
      [('Inference._on_param_status_change', PIE + 'inference_base.py'),
       ('ScalarParamHandler._set_status', PIE + 'param.py')]),
    P('P03', 'Every value change is announced, and models are set up before use',
      'Whenever a parameter gets a value, by whatever route, the model is told which parameter changed, and no other '
      'parameter is reported; the parameter already has its new value when the model is told. No model prediction is ever computed without the model having been given the chance to set '
      'itself up after the latest change.',
      ['histories'], 'every route that changes a value, every operation that evaluates the model, three kinds of inference',
      'a missing notification leaves stale derived state, which is visible only to models that cache and only after that '
      'particular route was used',
      [('ScalarParamHandler._set_value', PIE + 'param.py'), ('SignalModel._on_use', PIE + 'signalmodel.py'),
       ('SampledGaussianHandler.get_prdxns', PIE + 'gaussian.py')]),
    P('P04', 'Stepping visits exactly the requested values, both ways',
      'Stepping a parameter from one end to another in n steps visits exactly n equally spaced values (or values in constant '
      'ratio for logarithmic steps) including both ends, the same going up as going down, with the reported index matching '
      'the value. Stepping past either end is refused and changes nothing, ends left out default to the range, and '
      'logarithmic steps across zero are refused. Whenever a parameter starts or stops being stepped, or its steps are '
      'changed, all stepped parameters restart from their first values; stepping past the end of a grid of several is '
      'refused and leads back to its start.',
      ['inputs', 'histories'], 'all end points (increasing, decreasing, negative), step counts up to 4 (7 thorough), both directions',
      'an off-by-one or accumulated error in one direction or one step type is missed by tests that step forward over one grid',
      [('RealParamHandler.linstep/logstep/next_step/prev_step/first_step/last_step', PIE + 'realparam.py'),
       ('Inference._on_param_status_change/reset_steps/next_step', PIE + 'inference_base.py')]),
    P('P05', 'A grid fit puts the right statistic at every grid point, once',
      'Fitting with stepped parameters returns an array with one entry per combination of steps, each the statistic at '
      'exactly those parameter values, with axes labelled in stepping order by name, ends and count. Every grid point is '
      'evaluated once, consecutive evaluations differ by one step of one parameter, and the result does not depend on where '
      'the parameters were stepped to before.',
      ['inputs', 'histories'], 'all axis limits, data and models; grids up to 3 parameters; any earlier stepping, status change or fit',
      'tests look at a few cells of one grid; a transposed axis, a wrong turn of the zig-zag or a stale direction flag shows '
      'only for other shapes or histories',
      [('Inference.do_grid', PIE + 'inference_base.py'), ('Inference.next_step/reset_steps', PIE + 'inference_base.py'),
       ('ScalarGrid', PIE + 'containers.py')]),
    P('P06', 'Profile grids pair optimised values with their statistic',
      'When some parameters step and others vary, each grid entry is the statistic optimised at that grid point, and the '
      'optimised parameter values stored for that point reproduce it. The recorded optimum is the best entry of the whole '
      'grid in the direction of the statistic, and the recorded index is where it is. Asking for parameter grids when nothing varies gives the plain grid.',
      ['inputs'], 'all models, data and grids, any minimiser that returns a point, the value there and a count',
      'needs the best point anywhere on the grid, either direction of optimisation, and one or several varying parameters; '
      'tests plot one profile',
      [('Inference.do_grid', PIE + 'inference_base.py'), ('VectorGrid', PIE + 'containers.py')]),
    P('P07', 'The statistic is its definition over all data',
      'Chi-squared is the sum over every datum of every predictor of the squared residual in units of its own error; the log '
      'likelihood is minus half of that; the log posterior adds the log prior exactly once. The value always reflects the '
      'current parameters and data, however predictions are supplied (one at a time or in bulk) and however data were given.',
      ['inputs', 'configurations'], 'all data, errors, parameter values and models; 1 to 3 predictors, unequal sizes, 1-d and 2-d locations',
      'tests compare with a hand-computed number for one data set and cannot see a missing predictor, a stale prediction or '
      'a wrong weight elsewhere',
      [('ChisqrInference.score', PIE + 'chisqr.py'), ('MaxLikeInference.score', PIE + 'maxlike.py'),
       ('BayesianInference.score', PIE + 'bayes.py'), ('SampledGaussianHandler.chisqr/log_like', PIE + 'gaussian.py')]),
    P('P08', 'A fit reports parameters, statistic and model state that agree',
      'Whatever the minimiser does, the statistic a fit reports is the statistic at the parameter values it reports, the model '
      'is left at exactly those values, fixed parameters are untouched, and the result is no worse than the starting point '
      '(lower chi-squared, higher likelihood or posterior). With mapped bounds the reported values and the model stay '
      'within their ranges, and the mapping is exactly undone. The final search is made to the tolerance asked for (by default '
      'that of the inference), from directions that span all varying parameters (wherever they start in their range); the first search '
      'moves each on the scale last given for it. Without method or tolerance a fit is refused.',
      ['inputs', 'schedules'], 'all models, data, starts and ranges; any sequence of trial points a minimiser may evaluate',
      'the last trial point usually lies within tolerance of the optimum, so a test tolerance hides that the wrong point is '
      'reported; sign errors need a statistic of the other orientation',
      [('Inference.optimize', PIE + 'inference_base.py'), ('Inference._score', PIE + 'inference_base.py'),
       ('RealParamHandler._unbounded_get_value/_unbounded_set_value', PIE + 'realparam.py')]),
    P('P09', 'Inference instances, derived classes and snapshots are independent',
      'No operation on one inference instance changes values, ranges, status or statistic of another instance of the same '
      'class, and declaring a derived model or data set does not change the class it derives from. A snapshot of the '
      'parameters never follows later changes and restores every value exactly, in this or another instance.',
      ['histories'], 'all values and all pairs of operations on two instances, base and derived classes',
      'state lives in descriptors shared by all instances; leaks show only with two live instances and a particular '
      'interleaving',
      [('Param.__get__/__set__/_report_name', PIE + 'param.py'), ('ParamValues', PIE + 'containers.py'),
       ('Inference.get_params/set_params', PIE + 'inference_base.py'), ('Predictor._report_name', PIE + 'predictor.py')]),
    P('P10', 'Simulated data stay local and consistent; originals never change',
      'Simulating, resimulating, moving or adding data in one inference never changes the original data, the arrays the '
      'caller supplied, another predictor or any other instance. Afterwards data, locations and errors have one length, '
      'each simulated datum is the model prediction at its location plus Gaussian noise of its own stated size (integer data '
      'included), and the statistic uses exactly these data. Requests that are refused, or fail in the model, change nothing.',
      ['inputs', 'histories'], 'all data, parameters and histories of simulation calls',
      'original data are shared by reference until first modified; an aliasing leak corrupts results of later, unrelated '
      'instances',
      [('SampledGaussianHandler.sim/sim1/add_sim/localize_data', PIE + 'gaussian.py'),
       ('SampledGaussian.set_data', PIE + 'gaussian.py')]),
]

try:
    import spec_more
    PROPS += [P(*a, **k) for a, k in spec_more.MORE]
except ImportError:
    pass

TECH = 'abstract interpretation of the source (gated value numbering of client programs over the public API)'
NOTE = ('Static: the source is analysed, never run. Obligations are discharged for all inputs of the listed clients over exact '
        'reals, by canonical terms, path facts or random interpretation of terms; trusts the modelled semantics of Python, '
        'numpy and f2py. Undecided obligations are printed and listed in the evidence, never reported as violations.')


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'na')}) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m compileall -q sa checks run.py',
               checks=[dict(property=p['id'], quick_cmd='python3-vt run.py %s --tier quick' % p['id'],
                            thorough_cmd='python3-vt run.py %s --tier thorough' % p['id'], technique=TECH, level='other',
                            level_note=p['note'] or NOTE) for p in PROPS if not p['na']],
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']])
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
