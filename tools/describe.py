"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = 'mtoolkit/'
SC = 'mtoolkit/scientific/'


def prop(pid, title, statement, over, text, why, files, mechanism, observe,
         technique, note):
    return dict(pid=pid, title=title, statement=statement, over=over,
                text=text, why=why, files=files, mechanism=mechanism,
                observe=observe, technique=technique, note=note)


P = [
prop('C01', 'Catalogue reading keeps every event, value and order',
 'Reading a catalogue file gives exactly one event per data row, in file '
 'order, with every integer, decimal and text field equal to what the row '
 'says, whatever the quoting, spacing around numbers, line ends or blank '
 'lines. Blank optional fields come out as blank (a blank uncertainty of Mw as '
 'zero). Nothing is shared between events. A file that does not begin with the '
 'documented header, in its order, is refused as malformed.',
 ['inputs'], 'all catalogue files of admissible rows',
 'The tests read a few fixed files; they cannot reach every number form, '
 'quoting, header defect or catalogue length.',
 [MT + 'eqcatalog.py'],
 [('CSV reader and per-field converters', MT + 'eqcatalog.py EqEntryReader')],
 ['events returned by the reader'],
 'differential monitor against an independent CSV model, random files',
 'reader output compared field by field with an independent decimal reading'),
prop('C02', 'Rows that break a compulsory field are refused, naming it',
 'A catalogue with a row whose compulsory field (identifiers, date, time, '
 'position, depth, moment magnitude) is blank, unreadable, infinite or outside its '
 'documented range is refused with a validation error that names the field '
 'and the line of the file; days go up to 31, in February up to 29. Values on '
 'the limits are accepted.',
 ['inputs'], 'all rows with one or more defective compulsory fields, at any '
 'line of a catalogue of any length',
 'The tests have one fixture per a few limits; the limits of every field, '
 'their neighbours and combinations are not enumerated.',
 [MT + 'eqcatalog.py'],
 [('field checks table', MT + 'eqcatalog.py FIELD_RULES / checks')],
 ['exception type and message of the reader'],
 'oracle over mutated catalogues (one defect per field, limit and neighbour)',
 'every compulsory field with defects at and beyond its limits'),
prop('C03', 'Unusable optional fields become blank, sound ones stay',
 'An optional field that is unreadable, infinite or outside its documented range is '
 'turned into a blank and never refused, the missing fields of a short row '
 'count as blank, and sound optional values stay as written. The three error '
 'ellipse fields are kept together only when all are present and sound and '
 'the major axis is not less than the minor one; otherwise all three are '
 'blank. An unusable or blank uncertainty of Mw becomes zero.',
 ['inputs'], 'all combinations of blank, unreadable, edge, out-of-range and '
 'sound optional fields',
 'Combinations of thirteen optional fields; the tests try single ones.',
 [MT + 'eqcatalog.py'],
 [('optional field checks', MT + 'eqcatalog.py')],
 ['events returned by the reader'],
 'oracle over random combinations of optional-field defects',
 'independent model of the documented ranges'),
prop('C04', 'Written catalogues read back as the same events',
 'Writing events to a catalogue file and reading the file gives equal events '
 'in the same order, blanks included, also over an existing longer file. The '
 'file holds the documented header and nothing else; a missing folder is '
 'refused before anything is written.',
 ['inputs', 'histories'], 'all sequences of valid events, all earlier '
 'contents of the file',
 'Tests write one fixed list into a fresh file.',
 [MT + 'eqcatalog.py'],
 [('CSV writer', MT + 'eqcatalog.py EqEntryWriter')],
 ['file bytes', 're-read events'],
 'write/read round trip with an independent CSV reader',
 'round trip over 17-digit numbers, separators, quotes, line ends, non-ASCII'),
prop('C05', 'Source models are read exactly; invalid documents refused',
 'Reading a source model document gives its area sources in document order '
 'with every identifier, text and number as written, each source with the '
 'identifiers of the document it came from. Reading a document that is not '
 'well formed or does not follow the schema ends in an error, and so does a '
 'missing file.',
 ['inputs'], 'all valid source model documents and all single-defect '
 'variants of them',
 'Tests read a couple of fixed documents.',
 ['nrml/reader.py', 'nrml/nrml_xml.py'],
 [('schema validation', 'nrml/reader.py NRMLReader'),
  ('element to object mapping', 'nrml/reader.py')],
 ['sources returned by the reader'],
 'differential monitor against an independent XML reading',
 'random documents of 1-8 sources and structural mutations'),
prop('C06', 'Written source models are valid and read back the same',
 'Writing area sources gives a document that follows the schema and reads '
 'back as equal sources in the same order, numbers without any loss of '
 'precision, also over an existing longer file; sources are equal exactly '
 'when all that is in them is. A missing folder is refused and no file '
 'appears.',
 ['inputs', 'histories'], 'all sequences of valid area sources, all earlier '
 'contents of the file',
 'Tests compare one serialised source with a fixture.',
 ['nrml/writer.py', 'nrml/reader.py', 'mtoolkit/source_model.py'],
 [('document builder', 'nrml/writer.py AreaSourceWriter.serialize')],
 ['file bytes', 're-read sources'],
 'write/validate/read round trip with an independent XML reading',
 'schema validation and value equality on every case'),
prop('C07', 'A zone is given exactly the events strictly inside its polygon',
 'For each area source, in order, processing sees exactly the events whose '
 'longitude and latitude lie strictly inside its boundary polygon, in '
 'catalogue order and with unchanged values; without a source model it sees '
 'all of them. Self-crossing boundaries are refused.',
 ['inputs'], 'all simple and self-crossing polygons, all event positions '
 'including vertices, edges and their neighbours',
 'Tests use one box and a few points.',
 [MT + 'catalog_filter.py'],
 [('point in polygon', MT + 'catalog_filter.py SourceModelCatalogFilter')],
 ['filtered event matrices'],
 'exact rational point-in-polygon oracle',
 'rational arithmetic oracle on convex, concave, comb and star polygons'),
prop('C08', 'Decimal years, distances and julian days are right',
 'Decimal years follow the calendar (a year has 365 days) and order dates '
 'properly; distances are great-circle distances, symmetric, finite for any '
 'two points including antipodes, in degrees and radians alike; julian days '
 'agree with the Gregorian calendar. Inputs are not changed.',
 ['inputs'], 'all dates and all pairs of points on the sphere',
 'Tests compare a few values.',
 [SC + 'catalogue_utilities.py'],
 [('decimal_year, haversine, greg2julian', SC + 'catalogue_utilities.py')],
 ['returned vectors'],
 'numerical oracle (position vectors, calendar arithmetic)',
 'independent formulas with stated tolerances'),
prop('C09', 'Declustering windows follow the published relations',
 'The space and time windows used by declustering equal the published '
 'Gardner-Knopoff, Gruenthal and Uhrhammer relations for every magnitude, '
 'including the break at 6.5, element by element.',
 ['inputs'], 'all magnitude vectors',
 'Tests evaluate a few magnitudes.',
 [SC + 'declustering.py'],
 [('window relations', SC + 'declustering.py *Window.calc')],
 ['window vectors'],
 'formula oracle on random magnitude vectors',
 'the relations are restated in the check'),
prop('C10', 'Gardner-Knopoff removes exactly the dependent events',
 'Gardner-Knopoff declustering goes through the events by decreasing '
 'magnitude; each event not yet in a cluster claims the unclaimed smaller '
 'events inside its distance window and inside its time window after it, or '
 'the configured share of it before it. The claiming event is kept, claimed '
 'later (or same-day) ones are flagged as aftershocks and earlier ones as foreshocks, '
 'cluster numbers group exactly those events, and the resulting catalogue is '
 'the events with flag zero in catalogue order.',
 ['inputs', 'configurations'], 'all catalogues, window methods and foreshock '
 'shares',
 'Tests use one catalogue per method and cannot cover the sequences of '
 'overlapping clusters.',
 [SC + 'declustering.py', MT + 'jobs.py'],
 [('cluster loop', SC + 'declustering.py gardner_knopoff_decluster')],
 ['cluster, flag and catalogue results'],
 'trace-specification monitor: every claim re-derived from the events',
 'each flag is justified step by step; 1e-9 window margins left undecided'),
prop('C11', 'Afteran removes exactly the dependent events',
 'Afteran declustering goes through the events by decreasing magnitude; each '
 'event not yet in a cluster examines once, by decreasing magnitude, the '
 'unclaimed events inside its distance window: it claims as aftershock one at '
 'or after the last aftershock claimed (first itself) by no more than the '
 'moving time window and, likewise backward in time, as foreshock one not '
 'claimed as aftershock. The examining event is kept, flags and '
 'cluster numbers describe exactly the claims, and the resulting catalogue is '
 'the events with flag zero in catalogue order.',
 ['inputs', 'configurations'], 'all catalogues, window methods and moving '
 'window lengths',
 'Tests use one catalogue per method; chains of events need many inputs.',
 [SC + 'declustering.py', MT + 'jobs.py'],
 [('moving windows', SC + 'declustering.py afteran_decluster')],
 ['cluster, flag and catalogue results'],
 'executable reference model plus invariant monitor',
 'model comparison when all magnitudes differ, invariants otherwise'),
prop('C12', 'Stepp gives the completeness table its residual test defines',
 'The Stepp table has one row per magnitude window, from the lowest '
 'magnitude upward, whose year is the end of the catalogue less the last '
 'observation length at which the change of slope exceeds the sensitivity '
 '(the previous window\'s year where none does). With the increment lock the '
 'years never go up with magnitude.',
 ['inputs', 'configurations'], 'all catalogues and Stepp parameters whose '
 'time window fits in the catalogue',
 'Tests compare one table.',
 [SC + 'completeness.py', MT + 'jobs.py'],
 [('Stepp analysis', SC + 'completeness.py stepp_analysis')],
 ['completeness table'],
 'executable reference model with undecided margins',
 'event-by-event recount and slope test; 1e-7 margins left undecided'),
prop('C13', 'Events are selected by the flags and completeness alone',
 'An event is selected for storing exactly when declustering did not flag '
 'it and no row of the completeness table has both a later year than the '
 'event and a larger magnitude. Each event has one entry in the selection '
 'vector, in catalogue order.',
 ['inputs'], 'all event, flag and table combinations, with values exactly '
 'on the limits',
 'Tests use small fixed vectors.',
 [SC + 'completeness.py', MT + 'jobs.py'],
 [('selected_eq_flag_vector', SC + 'completeness.py')],
 ['selection vector'],
 'per-event oracle on random vectors',
 'exact comparison'),
prop('C14', 'Stored preprocessing results hold what was selected',
 'The stored catalogue holds exactly the selected events in catalogue '
 'order, unchanged; the stored completeness table holds every row in order '
 'to five decimals and is read back with the same rows and two columns, also '
 'when it has a single row. Earlier contents of the files do not show '
 'through.',
 ['inputs', 'histories'], 'all selections and tables, all earlier file '
 'contents',
 'Tests store one selection and one table.',
 [MT + 'jobs.py', MT + 'eqcatalog.py'],
 [('store and retrieve jobs', MT + 'jobs.py')],
 ['stored files', 'retrieved table'],
 'independent reading of the stored files',
 'file contents decided by decimal rounding'),
prop('C15', 'Weichert recurrence is the maximum-likelihood fit',
 'Weichert recurrence counts each complete event in its magnitude bin, gives '
 'each bin the observation period of its completeness row (the last row not '
 'above the bin; the last of all when every row is above it), and returns the '
 'b value that maximises the likelihood, the rate at the reference magnitude '
 '(at zero for reference magnitude zero) and their standard errors. When the '
 'likelihood has no maximum, or the iteration does not reach it, it ends with '
 'a value error instead of a number.',
 ['inputs', 'configurations'], 'all catalogues, tables, bin sizes and '
 'reference magnitudes',
 'Tests compare the result for one catalogue.',
 [SC + 'recurrence.py'],
 [('binning and Newton iteration', SC + 'recurrence.py weichert_prep, '
   'weichert')],
 ['b, rate and errors'],
 'numerical oracle: bisection on the likelihood, event-by-event binning',
 'compared at 2e-4 relative, the stopping rule of the method'),
prop('C16', 'MLE recurrence averages the periods by their events',
 'MLE recurrence fits each completeness period by the Aki formula with bin '
 'correction over the events that are complete in it and averages b, rate '
 'and their errors with the number of events as weights; periods that share '
 'a year count once, with their smallest magnitude.',
 ['inputs', 'configurations'], 'all catalogues, tables, bin sizes and '
 'reference magnitudes',
 'Tests compare the result for one catalogue.',
 [SC + 'recurrence.py'],
 [('b_maxlike_time, b_max_likelihood', SC + 'recurrence.py')],
 ['b, rate and errors'],
 'executable reference model',
 'independent re-implementation on plain numbers'),
prop('C17', 'Recurrence tables count every event once',
 'A recurrence table has evenly spaced magnitude bins from the lowest '
 'magnitude; each event is counted in exactly one bin, the cumulative counts '
 'are sums of the counts at and above a bin, and the annual columns are the '
 'counts divided by the years spanned.',
 ['inputs'], 'all catalogues and bin sizes',
 'Tests compare one table.',
 [SC + 'recurrence.py'],
 [('recurrence_table', SC + 'recurrence.py')],
 ['table rows'],
 'conservation monitor and event-by-event count',
 'conservation laws always, exact counts off bin-edge rounding'),
prop('C18', 'The Kijko estimate solves its equation within its limits',
 'The non-parametric Gaussian maximum magnitude is the observed maximum '
 'plus the integral of the smoothed distribution of the largest events, '
 'iterated until the change is within the tolerance or the iteration limit '
 'is reached; its error combines the error of the observed maximum with the '
 'increment.',
 ['inputs', 'configurations'], 'all samples and parameters',
 'Tests compare one sample.',
 [SC + 'maximum_magnitude.py'],
 [('kijko_nonparametric_gauss and its parts', SC + 'maximum_magnitude.py')],
 ['estimate and error'],
 'executable reference model with exact normal distribution',
 'one known finding: the lower tail of the normal approximation'),
prop('C19', 'The cumulative moment estimate and its bootstrap are right',
 'The cumulative moment maximum magnitude follows from the largest '
 'departures of the yearly cumulated moment from its mean line, silent years '
 'included. With uncertain magnitudes it is the mean over the configured '
 'number of random draws of the events within their uncertainties, and the '
 'error their standard deviation; with certain magnitudes the error is zero. '
 'A seeded estimate depends on its seed alone and leaves the shared random '
 'generator as it was.',
 ['inputs', 'configurations'], 'all catalogues, uncertainties and numbers of '
 'bootstraps',
 'Tests compare one catalogue with one seed.',
 [SC + 'maximum_magnitude.py'],
 [('cumulative_moment, cum_mo_uncertainty', SC + 'maximum_magnitude.py')],
 ['estimate and error'],
 'executable reference model, bootstrap redrawn by the monitor',
 'same random stream, independent arithmetic'),
prop('C20', 'Exactly the configured jobs run, in the configured order',
 'A run executes the configured preprocessing jobs once each in their '
 'order, then, if processing is on, the configured processing jobs in their '
 'order once per source, and no other; a job with an unknown name is refused '
 'before anything runs or is written. Job queues compare equal exactly if '
 'they hold the same jobs in the same order. Without preprocessing jobs the '
 'configured completeness table is taken, or, without one, the first year '
 'and smallest magnitude of the catalogue.',
 ['configurations', 'programs'], 'all job lists, with and without '
 'processing, storing, retrieving and source model',
 'Tests build a handful of pipelines.',
 [MT + 'workflow.py', MT + 'jobs.py'],
 [('pipeline builders', MT + 'workflow.py'),
  ('job queue', MT + 'workflow.py PipeLine.run')],
 ['calls of the algorithms', 'files written'],
 'trace monitor: recorded calls against the planned trace',
 'algorithms replaced by recording stand-ins'),
prop('C21', 'Sources are processed independently of each other',
 'The values a source gets depend only on the events, the configuration and '
 'that source, not on the other sources or their order. Recurrence changes '
 'only the a value, b value and minimum magnitude (to the reference '
 'magnitude), maximum magnitude estimation only the maximum magnitude; '
 'everything else stays as in the source model, and with processing off all '
 'of it.',
 ['inputs', 'configurations'], 'all source models and their permutations and '
 'subsets',
 'Tests process one source.',
 [MT + 'workflow.py', MT + 'jobs.py'],
 [('per-source loop', MT + 'workflow.py Workflow.start')],
 ['sources after the run'],
 'metamorphic monitor: alone, together and permuted',
 'real algorithms, certain magnitudes'),
prop('C22', 'Continuing from stored results equals a single run',
 'A run over the stored catalogue and completeness table without '
 'preprocessing works with the same completeness table (to five decimals) and '
 'gives the sources the same values as the run that stored '
 'them, also when repeated, and leaves the stored files alone.',
 ['inputs', 'histories', 'configurations'], 'all catalogues, source models '
 'and preprocessing lists; with a computed completeness table (the sources: '
 'a monotone one) for the MLE recurrence, otherwise for all processing jobs',
 'One test resumes one configuration.',
 [MT + 'workflow.py', MT + 'jobs.py', MT + 'eqcatalog.py'],
 [('store / retrieve jobs', MT + 'jobs.py')],
 ['sources of both runs', 'stored files'],
 'run-pair comparison over random scenarios',
 'values compared to 1e-9'),
prop('C23', 'Fault geometry: valid ones measured right, others refused',
 'A simple fault is accepted exactly when its trace has two or more points '
 'with longitudes within 180 and latitudes within 90 degrees, its upper '
 'depth is zero or more and less than its lower depth, and its dip is above '
 '0 and at most 90; anything else is a value error. The length is the '
 'great-circle length of the trace whatever its direction, the width the '
 'depth range over the sine of the dip, the area their product.',
 ['inputs'], 'all traces, depths and dips, on and beyond the limits',
 'Tests check one fault and a few defects.',
 [MT + 'geo/simple_fault.py'],
 [('checks and measures', MT + 'geo/simple_fault.py')],
 ['length, width, area, errors'],
 'numerical oracle with position vectors',
 'limits and neighbours of every rule'),
prop('C24', 'Tectonic regions: documented defaults, sound weights only',
 'The five known regions come with their documented shear modulus, '
 'displacement-length ratio and scaling relation; custom ones are accepted '
 'when every value has a weight, values are positive, relations are known '
 'and the weights sum to one up to rounding, and are otherwise a value error. '
 'Building a region leaves the values of all others as they were, and '
 'regions are equal exactly when their identifier and all their values and '
 'weights are.',
 ['inputs', 'histories'], 'all default and custom regions with single '
 'defects, sequences of regions',
 'Tests check one region and a few defects.',
 [MT + 'geo/tectonic_region.py'],
 [('defaults and checks', MT + 'geo/tectonic_region.py')],
 ['values of the regions, errors'],
 'oracle over random regions and defects, sharing monitor',
 'limits and defects of every rule'),
prop('C25', 'Fault rates follow Anderson and Luco for every bin',
 'The magnitude frequency distribution of a fault has one non-negative rate '
 'per magnitude bin from the minimum magnitude up to the maximum, each the '
 'difference of the Anderson-Luco cumulative rates at the edges of the bin. '
 'Rates are proportional to slip and to the seismic share of it, and a '
 'missing maximum magnitude comes from the scaling relation for the area and '
 'rake; slip of zero or less and shares outside [0, 1) are refused.',
 ['inputs', 'configurations'], 'all faults, regions and parameters',
 'The module cannot be imported by the tests here, and they check one '
 'fault.',
 [SC + 'fault_calculator.py'],
 [('get_mfd', SC + 'fault_calculator.py')],
 ['rates'],
 'executable reference model and scaling laws; stub of the missing library',
 'the scaling relation itself is a stub'),
prop('C26', 'A command-line run writes exactly the prescribed results',
 'A run writes the result file and, when preprocessing and storing are '
 'configured, the stored catalogue and completeness table, holding what the '
 'configured steps prescribe for the given inputs, over absent or existing '
 'files and with relative or absolute paths. Without a source model the '
 'result is the one default source named MTK. Apart from those (and the debug '
 'log in detailed mode) every file is left as it was, and detailed mode does '
 'not change the results. Without arguments, or asked for help or for its '
 'version, the command shows that and runs nothing.',
 ['inputs', 'configurations', 'histories'], 'all configurations, inputs and '
 'earlier directory contents',
 'Two fixed workflows are tested, not the command line.',
 ['main.py', MT + 'console.py', MT + 'workflow.py', MT + 'jobs.py',
  'nrml/writer.py'],
 [('main', 'main.py')],
 ['every file of the directory before and after'],
 'end-to-end monitor: directory snapshots and composed expectation',
 'in-process and as real processes'),
prop('C27', 'A run that fails leaves earlier results and inputs alone',
 'A run that cannot be completed (defective catalogue, source model or '
 'configuration, an input/output error, a crash or a kill) before all sources '
 'are processed leaves an earlier result file and all inputs byte for byte '
 'as they were and creates no result file, and it does not end as a success. '
 'When the defect shows while reading the inputs or the configuration, no '
 'file is changed at all.',
 ['crash_points', 'fault_sequences', 'inputs'], 'crashes at every executed '
 'line, failures of every file access, defects of every kind of input',
 'No test injects a fault.',
 ['main.py', MT + 'workflow.py', MT + 'jobs.py', 'nrml/writer.py'],
 [('result written last', 'main.py'),
  ('jobs checked before the run', MT + 'workflow.py')],
 ['every file of the directory before and after'],
 'fault injection (lines, opens, kills, defective inputs), snapshots',
 'crash points are sampled, not enumerated'),
prop('C28', 'Analyses do not change, remember or depend on event order',
 'Declustering, completeness, selection, recurrence and maximum magnitude '
 'analyses leave their inputs unchanged, give the same result every time for '
 'the same inputs whatever ran before, and do not depend on the order of the '
 'events beyond rounding and the choice between equal magnitudes: '
 'per-event results move with their events.',
 ['inputs', 'histories'], 'all catalogues, parameter sets, event orders and '
 'array layouts',
 'Tests run each analysis once on one order.',
 [SC + 'declustering.py', SC + 'completeness.py', SC + 'recurrence.py',
  SC + 'maximum_magnitude.py'],
 [('pure functions over arrays', SC)],
 ['results, inputs after the call'],
 'metamorphic monitor: read-only inputs, repetition, permutation',
 'bitwise for repetition, rounding for permutation'),
prop('C29', 'Zones with too few events keep their values, with a warning',
 'A source whose zone has no events, or too few for a job to give a finite '
 'result, keeps the values it had for that job, a warning is logged for each '
 'value not computed, and all other sources are processed as usual. No '
 'source ever gets a value that is not a finite number.',
 ['inputs', 'configurations'], 'all source models with empty and sparse '
 'zones at any position',
 'Tests have no empty zone.',
 [MT + 'jobs.py', MT + 'workflow.py'],
 [('guards of the jobs', MT + 'jobs.py recurrence, maximum_magnitude')],
 ['sources after the run', 'log records'],
 'oracle over random models with sparse zones, log monitor',
 'composed expectation per source'),
prop('C30', 'Every algorithm gets its configured parameters and data',
 'Each configured algorithm is called with exactly the values configured for '
 'it and with the events and the completeness table the earlier steps left: '
 'the declustered events for later steps (Afteran declusters the whole '
 'catalogue), the events of the zone with their '
 'own years, magnitudes and uncertainties for processing. Its results end up '
 'in the matching values of that source and in the stored files.',
 ['configurations', 'inputs'], 'all configurations and job orders',
 'Tests check one call per job with one configuration.',
 [MT + 'jobs.py', MT + 'workflow.py'],
 [('jobs', MT + 'jobs.py')],
 ['arguments and results of the algorithms'],
 'call-trace monitor: arguments against the planned data flow',
 'algorithms replaced by recording stand-ins'),
prop('C31', 'The report of a run tells what happened',
 'The report names the executed jobs in order. In detailed mode the report '
 'and the debug log give the true numbers of events, sources, events kept '
 'and removed and clusters found by declustering, stored and dropped events '
 'and events per zone, and the computed b, a and maximum magnitude values; '
 'otherwise no details are given and no debug log is written. Each fact '
 'stands below the title of its job, and the debug log of an earlier run is '
 'continued, not lost.',
 ['inputs', 'configurations'], 'all configurations and inputs',
 'No test looks at the report.',
 [MT + 'console.py', MT + 'jobs.py', MT + 'catalog_filter.py'],
 [('logging', MT + 'jobs.py, ' + MT + 'console.py')],
 ['console output', 'debug.log'],
 'log checker against independently counted facts',
 'message texts are matched'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mechanism']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks = []
    for p in P:
        checks.append({
            'property': p['pid'],
            'quick_cmd': 'bin/check %s --tier quick' % p['pid'],
            'thorough_cmd': 'bin/check %s --tier thorough' % p['pid'],
            'technique': 'runtime monitoring: ' + p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        })
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
                   'not_applicable': [],
                   'notes': 'No hooks: the monitors observe the code through '
                   'its interfaces, sys.monitoring and audit hooks. Each '
                   'check translates /repo to Python 3 in a scratch folder.'},
                  f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
