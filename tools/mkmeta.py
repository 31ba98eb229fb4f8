#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

K = 'kamrecsys/'
BASE, EVENT, SCORE = (K + 'data/base.py', K + 'data/event.py',
                      K + 'data/event_with_score.py')
REC = K + 'base/base.py'
SPB, SPM, SPT = (K + 'score_predictor/base.py',
                 K + 'score_predictor/matrix_factorization.py',
                 K + 'score_predictor/topic_model.py')
IFB, IFM = (K + 'item_finder/base.py', K + 'item_finder/matrix_factorization.py')
LOAD = K + 'datasets/base.py'
SPLIT = K + 'model_selection/split.py'
SCR = ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
       'scripts/exp_recsys_util.py']


def prop(id, title, statement, over, text, cant, files, mech, state=(),
         observe=(), tech=''):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=cant,
        anchors=dict(files=files, mechanism=[
            dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)), tech))


prop('C01', 'Internal and external ids are inverse and no event is lost',
     'After events are set, the internal ids of each object type are exactly 0 '
     'to the number of its objects minus 1, converting them to external ids '
     'and back is the identity, and the external ids of a type are exactly the '
     'distinct ids in all the event columns of that type. Converting the '
     'stored internal events back gives the original events, in number, order '
     'and value. Layouts with columns of object types that do not exist are '
     'refused with an error.',
     ['inputs', 'configurations'],
     'any event table (integer of any width, float, or string ids, in any '
     'distribution, memory order and number), any number of object types and '
     'any assignment of event columns to them, repeated columns included',
     'The tests convert one 8-row sample of the default two-column layout; a '
     'wrong id only shows for other id sets, widths and column layouts.',
     [BASE, EVENT],
     [('id table of an object type', BASE + ': BaseData._gen_id'),
      ('external to internal substitution', BASE +
       ': BaseData._gen_id_substitution_table'),
      ('events to internal ids', EVENT + ': EventData.set_event')],
     [('eid, iid', 'id tables per object type', BASE),
      ('event', 'events in internal ids', EVENT)],
     ['set_event', 'to_eid', 'to_iid', 'to_eid_event', 'to_iid_event'],
     'online monitor on container states against a dictionary-based reference '
     'of the event table')

prop('C02', 'Filtering a data set equals rebuilding it from selected events',
     'Filtering by a boolean or index condition yields a data set that is '
     'indistinguishable from one built from the selected events alone: same '
     'events, scores, event features, score domain, object tables and object '
     'features, restricted to the objects that still occur. The source is '
     'left untouched and shares no data with the result, and a chain of '
     'filters equals one filter.',
     ['inputs', 'histories'],
     'any container with or without scores, event and object features, any '
     'condition (boolean list or array, index array, selecting all, none or '
     'one), chains of filters, later changes of either container, and '
     'training on the result',
     'The tests filter one sample once with one condition; lost or shared '
     'tables need empty selections, repeated types, chains or later changes '
     'to appear.',
     [EVENT, SCORE, BASE],
     [('filtering of events and object tables', EVENT +
       ': EventData.filter_event'),
      ('filtering of scores', SCORE + ': EventWithScoreData.filter_event')],
     [('event, score, event_feature, feature', 'contents', EVENT)],
     ['filter_event'],
     'differential monitor: filtered container against one rebuilt from the '
     'selected events, plus aliasing monitors')

prop('C03', 'Object features follow their objects',
     'The feature row held at an internal id is the row that was given for the '
     'external id of that object, whatever the order and superset in which '
     'features were given, and stays so after any history of filtering, '
     'setting features again, and changes by the caller of the arrays passed. '
     'Replacing the events of a container never leaves features of objects of '
     'the former events behind.',
     ['inputs', 'histories'],
     'any id kind, layout, feature type (structured, plain, text), order and '
     'superset of ids, and histories of set_feature, filter_event and '
     'set_event',
     'The tests look at a few features of shipped samples whose files are '
     'already in the order of ids, where a permutation error is invisible.',
     [BASE, EVENT],
     [('feature rows arranged by internal id', BASE + ': BaseData.set_feature'),
      ('features kept through filtering', EVENT + ': EventData.filter_event')],
     [('feature', 'feature rows per object type', BASE)],
     ['set_feature', 'filter_event', 'set_event'],
     'history monitor: reference mapping from external ids to feature rows')

prop('C04', 'Unknown ids are never confused with known ones',
     'An id that is registered for its object type converts to its own '
     'internal id, and any other id, however close in value or text to a '
     'registered one or registered for another type, converts to the unknown '
     'marker, which is the number of objects of the type or the value that '
     'the caller asked for. Events with an illegal number of columns or '
     'dimensions and internal ids out of range are refused with an error.',
     ['inputs'],
     'known ids, near misses, ids of other types and fresh ids, in single or '
     'many events, for containers and for fitted recommenders',
     'The tests ask for a handful of known ids; confusion needs an unknown id '
     'near a boundary, a longer string, or a wrong column count.',
     [BASE, EVENT, REC],
     [('lookup of one id', BASE + ': ObjectUtilMixin.to_iid'),
      ('lookup in events with missing values', EVENT +
       ': EventUtilMixin.to_iid_event'),
      ('selection of event columns in queries', REC +
       ': BaseEventRecommender.predict')],
     [('iid', 'external to internal table', BASE)],
     ['to_iid', 'to_eid', 'to_iid_event', 'to_eid_event'],
     'online monitor with adversarial near-miss queries against a dictionary')

prop('C05', 'Score levels, bins and digitised scores agree',
     'For any score domain (lowest, highest, stride) the score levels are the '
     'arithmetic sequence from lowest to highest, their number agrees with the '
     'reported number of levels, and the bins separate adjacent levels '
     'half-way and cover all reals. Digitising maps a score to the index of '
     'its level, and a score off the levels to the nearest one; an automatic '
     'domain has the smallest and largest score and the smallest gap of the '
     'scores.',
     ['inputs', 'configurations'],
     'domains with integer, half, decimal, fractional, negative and large '
     'values; scores on, between and outside the levels; explicit and '
     'automatic domains; containers, filtered containers and recommenders',
     'The tests use the domain 1-5 by 1 only, where rounding of levels and '
     'bin edges cannot go wrong.',
     [SCORE, K + 'metrics/base.py'],
     [('number of levels', K + 'metrics/base.py: get_n_score_levels'),
      ('bins', K + 'metrics/base.py: generate_score_bins'),
      ('levels', SCORE + ': ScoreUtilMixin.get_score_levels'),
      ('digitising', SCORE + ': EventWithScoreData.digitize_score')],
     [('score_domain, n_score_levels', 'domain of scores', SCORE)],
     ['digitize_score', 'generate_score_bins', 'get_score_levels'],
     'online monitor against an independent construction of levels')

prop('C06', 'Binarisation of scores',
     'Binarising turns a score into 1 if it is greater than the threshold and '
     'into 0 if it is equal or less, the default threshold being the centre '
     'of the score domain, and the score domain becomes 0 to 1 by 1 with two '
     'levels. Nothing else of the data set changes, and no other data set, '
     'such as the one it was filtered from, changes at all.',
     ['inputs'],
     'scores of integer and real types of any domain, default, on-level, '
     'between-level and outside thresholds, fresh and filtered containers',
     'The tests binarise one sample with one or two thresholds; the boundary '
     'score and the stale domain only matter for other values.',
     [SCORE],
     [('binarisation', SCORE + ': EventWithScoreData.binarize_score')],
     [('score, score_domain, n_score_levels', 'scores and domain', SCORE)],
     ['binarize_score'],
     'online monitor against an element-wise reference; snapshots of all else')

prop('C07', 'Tab separated event files are loaded without loss',
     'Loading a tab separated event file gives one event for each line that is '
     'neither blank nor a comment, in the order of the file, with exactly the '
     'ids, score and event features written there, for a path or an open '
     'file; a file with a line of another number of columns than the rest is '
     'refused. The score domain and event layout are those the loader was asked '
     'for or documents.',
     ['inputs', 'configurations'],
     'files of one to many lines, one to four object types, repeated types, '
     'comments, blank lines, CRLF, missing final newline, negative and large '
     'ids, with and without scores and event features; the general loaders '
     'and those of the sample formats',
     'The tests load shipped, well-formed samples; one-line files, one-column '
     'files and unusual text need other inputs.',
     [LOAD, K + 'datasets/others.py', K + 'datasets/flixster.py'],
     [('event files', LOAD + ': load_event'),
      ('event files with scores', LOAD + ': load_event_with_score'),
      ('sample loaders', K + 'datasets/others.py: load_pci_sample; ' + K +
       'datasets/flixster.py: load_flixster_rating')],
     [], ['load_event', 'load_event_with_score'],
     'generated files with independently kept rows; loaded container compared '
     'with the rows')

prop('C08', 'Raw distributions survive conversion and loading',
     'The converters of raw MovieLens, Sushi and Flixster distributions '
     'followed by the loaders give a data set with exactly the events, scores, '
     'timestamps, user features and item features of the raw files, for every '
     'user and item that occurs in the events. Missing dates and URLs, '
     'non-ASCII titles, and users or items without events neither shift nor '
     'drop anything else. The tables of names that come with the loaders name '
     'the codes of ages, occupations, genres, prefectures and regions.',
     ['inputs'],
     'synthetic raw distributions in the original formats with unusual but '
     'legal contents',
     'The converters are not run by any test, and the shipped samples are a '
     'single conversion result each.',
     ['data/movielens100k.py', 'data/movielens1m.py', 'data/movielens_mini.py',
      'data/sushi3.py', 'data/flixster.py', K + 'datasets/movielens.py',
      K + 'datasets/sushi3.py', K + 'datasets/flixster.py'],
     [('conversion', 'data/movielens100k.py, data/movielens1m.py, '
       'data/movielens_mini.py, data/sushi3.py, data/flixster.py'),
      ('loading of features', K + 'datasets/movielens.py: '
       'load_movielens100k, load_movielens1m; ' + K +
       'datasets/sushi3.py: load_sushi3b_score')],
     [], ['load_movielens100k', 'load_movielens1m', 'load_movielens_mini',
          'load_sushi3b_score', 'load_flixster_rating'],
     'end-to-end pipeline runs in a private copy of the tree, compared field '
     'by field with the generated raw rows')

prop('C09', 'Prediction is a pure function of each queried event',
     'The prediction for an event depends only on the fitted model and that '
     'event: predicting a batch equals predicting its events one by one, in '
     'any order, in parts, repeatedly and concurrently from several threads. '
     'It is finite also when users or items are unknown, and predicting '
     'changes neither the model, the query, nor the random number generator.',
     ['inputs', 'schedules', 'histories'],
     'fitted recommenders of every kind, batches of known and unknown ids of '
     'every id kind, sequences of calls and concurrent callers',
     'The tests compare a few predictions of one trained model; dependence on '
     'batch, order, history or interleaving needs other queries.',
     [REC, SPM, SPT, IFM],
     [('conversion of queries', REC + ': BaseEventRecommender.predict'),
      ('prediction by models', SPM + ', ' + IFM + ', ' + SPT +
       ': raw_predict')],
     [], ['predict', 'raw_predict'],
     'metamorphic monitors over batches, and threaded stress under a 1 us '
     'switch interval with bitwise comparison')

prop('C10', 'Matrix factorisation predictions follow the documented formula',
     'A matrix factorisation model predicts the global bias plus the biases '
     'of the user and item plus the inner product of their factors, using '
     'exactly the parameters of those objects; the logistic item finders apply '
     'the sigmoid, and the prediction is then a probability. An unknown user '
     'or item contributes neither bias nor factors, so that an event whose '
     'objects are all unknown is predicted by the global bias alone.',
     ['inputs', 'configurations'],
     'the three models, any number of factors, regularisation and seed, any '
     'training set and event layout, any mix of known and unknown objects',
     'The tests check one model on one data set at two events with one factor, '
     'where swapped or shifted parameters can go unnoticed.',
     [SPM, IFM],
     [('prediction', SPM + ': PMF.raw_predict; ' + IFM +
       ': LogisticPMF.raw_predict, ImplicitLogisticPMF.raw_predict')],
     [('mu_, bu_, bi_, p_, q_', 'public model parameters', SPM)],
     ['predict', 'mu_', 'bu_', 'bi_', 'p_', 'q_'],
     'oracle recomputing each prediction from the public parameters with '
     'scalar arithmetic')

prop('C11', 'Training is decided by the seed and the data only',
     'Two trainings with the same options, data and seed, or generators in the '
     'same state, give identical parameters, predictions and summaries, '
     'whatever the state of the global generator, other trainings running in '
     'the process, or a relabelling of ids that keeps their order. A specified '
     'seed or generator leaves the global generator untouched, and different '
     'seeds give different starting points.',
     ['inputs', 'schedules', 'configurations'],
     'all models and options, seeds, generator objects and no seed, perturbed '
     'global state, relabelled ids, and concurrent trainings',
     'The tests train with one seed in a quiet process.',
     [REC, SPM, SPT, IFM],
     [('generator of a model', SPM + ', ' + IFM + ': fit, _init_coef; ' + SPT +
       ': _init_params')],
     [('random_state', 'seed or generator', REC)],
     ['fit', 'fit_results_'],
     'pairs of runs compared bitwise, with perturbation of global state and '
     'threaded stress')

prop('C12', 'Matrix factorisation training minimises its documented objective',
     'The losses reported by training are the documented regularised objective '
     'evaluated at the starting and final parameters, the final loss is not '
     'greater than the initial one, and the gradient given to the optimiser is '
     'the derivative of the function given to it. The optimiser is run with '
     'the options that the user gave and with no hidden limits. When training '
     'reports success by convergence, the objective is stationary at the published '
     'parameters.',
     ['inputs', 'configurations'],
     'the three models, any number of factors, regularisation, optimiser and '
     'its options, any training data',
     'The tests compare the loss of one data set with a constant; an error of '
     'a term in the gradient or loss shows only with other factors, data and '
     'penalties.',
     [SPM, IFM],
     [('objective', SPM + ': PMF.loss; ' + IFM + ': LogisticPMF.loss, '
       'ImplicitLogisticPMF.loss'),
      ('gradient', SPM + ': PMF.grad_loss; ' + IFM + ': grad_loss'),
      ('optimisation and summary', SPM + ', ' + IFM + ': fit')],
     [('fit_results_', 'summary of training', SPM)],
     ['fit', 'fit_results_'],
     'interceptor in front of the optimiser; central differences, and the '
     'objective recomputed from the public parameters')

prop('C13', 'pLSA training is a MAP-EM algorithm',
     'After training by any number of iterations, the tables of a multinomial '
     'pLSA model are conditional distributions (non-negative, each summing to '
     'one, strictly positive with a positive prior) and each further iteration '
     'performs exactly one EM step with the documented Dirichlet prior, so the '
     'penalised likelihood never decreases. The reported losses and iteration '
     'counts are those of the states really visited, and training stops at '
     'the iteration limit or when the loss change is within the tolerance.',
     ['inputs', 'histories', 'configurations'],
     'any number of factors, prior strength, tolerance and iteration limit, '
     'any training data and layout',
     'The tests train one model on one sample and compare a few entries.',
     [SPT],
     [('EM iteration', SPT + ': MultinomialPLSA.fit, maximization_step'),
      ('initial parameters', SPT + ': _init_params'), ('loss', SPT +
                                                       ': loss')],
     [('pZ_, pXgZ_, pYgZ_, pRgZ_', 'public tables', SPT)],
     ['fit', 'fit_results_'],
     'trace monitor over successive iteration limits, each step compared with '
     'a reference EM step')

prop('C14', 'pLSA predictions are the documented expectation or mode',
     'A pLSA model predicts the expectation, or with the mode option the most '
     'probable level, of the distribution of scores given the user and item '
     'that its public tables define. The prediction lies in the score domain '
     '(and is one of its levels for the mode), also for unknown users and '
     'items, which contribute the parameters of unknown objects.',
     ['inputs', 'configurations'],
     'both options, any number of factors, score domains with negative and '
     'fractional levels, known and unknown objects, any layout',
     'The tests look at the prediction of a few events with the domain 1-5.',
     [SPT],
     [('prediction', SPT + ': MultinomialPLSA.raw_predict')],
     [('pZ_, pXgZ_, pYgZ_, pRgZ_', 'public tables', SPT)],
     ['predict'],
     'oracle recomputing each prediction from the public tables')

prop('C15', 'Training only reads its data; models are independent afterwards',
     'Fitting changes nothing of the training data, and afterwards any change '
     'of the training data leaves the predictions and id tables of the model '
     'unchanged. Pickled and copied models predict identically, and a fitted '
     'model keeps neither the training events nor the generator that training '
     'used, except the one it was given.',
     ['inputs', 'histories'],
     'all models, any data; later changes by setting events and features, '
     'binarising and writing in place; pickles and copies',
     'The tests never look at the data after training nor change them.',
     [REC, SPB, IFB, SPM, SPT, IFM],
     [('copy of information of data', BASE +
       ': ObjectUtilMixin._set_object_info; ' + EVENT +
       ': EventUtilMixin._set_event_info; ' + SCORE +
       ': ScoreUtilMixin._set_score_info'),
      ('release of data', REC + ', ' + SPB + ', ' + IFB + ': remove_data')],
     [], ['fit', 'predict', 'to_iid'],
     'snapshots of data around training, mutation afterwards with query '
     'monitors')

prop('C16', 'Event layouts only select the columns used',
     'Training on wide events with chosen user and item columns is the same '
     'as training on a two-column data set of these columns with the same '
     'object tables: same parameters, summaries and predictions. Queries are '
     'whole events, of which only the chosen columns matter.',
     ['inputs', 'configurations'],
     'all models, any number of columns, any order, repeated object types, '
     'unused types, and any pair of chosen columns',
     'All tests use two columns in the default order.',
     [REC, SPM, SPT, IFM, IFB],
     [('selection of columns', REC + ': BaseEventRecommender.get_event, '
       'predict'), ('numbers of objects', SPM + ', ' + IFM + ', ' + SPT +
                    ': fit')],
     [('event_index', 'columns used', REC)],
     ['fit', 'predict'],
     'differential monitor: wide layout against plain layout')

prop('C17', 'Input contracts of item finders',
     'The explicit item finder accepts exactly data whose score domain is 0 to '
     '1 by 1 and whose scores consist of 0 and 1, both occurring, and refuses '
     'others with an error. The '
     'implicit item finder ignores scores and duplicates: its feedback matrix '
     'is 1 exactly at pairs of user and item that occur in events and 0 '
     'elsewhere, in every matrix form, and the result of training depends '
     'only on that set of pairs.',
     ['inputs'],
     'binary, uniform, multi-level and shifted scores; event sets with '
     'duplicates, any layout, and all matrix forms',
     'The tests use one legal sample for each finder, without duplicates.',
     [IFB, IFM, K + 'utils/base.py'],
     [('check of scores', IFB + ': BaseExplicitItemFinder.fit; ' + K +
       'utils/base.py: is_binary_score'),
      ('feedback matrix', IFB + ': BaseImplicitItemFinder.get_event_array')],
     [], ['fit', 'get_event_array'],
     'acceptance oracle, and comparison with a set-based matrix')

prop('C18', 'Score prediction metrics equal their definitions',
     'The mean absolute error, mean squared error, their reported deviations, '
     'root mean squared error, and the statistics of true and predicted scores '
     'equal their mathematical definitions, in whatever type, memory layout or '
     'container scores are given. Illegal inputs (non-finite values, different '
     'lengths) are refused with an error, inputs are not changed, and printed '
     'reports show the same numbers as returned ones.',
     ['inputs'],
     'pairs of score vectors of any length, scale and type',
     'The tests compare two or three small vectors.',
     [K + 'metrics/real.py', K + 'metrics/score_predictor.py'],
     [('errors', K + 'metrics/real.py: mean_absolute_error, '
       'mean_squared_error'),
      ('report and statistics', K + 'metrics/score_predictor.py: '
       'score_predictor_report, score_predictor_statistics')],
     [], ['score_predictor_report', 'score_predictor_statistics'],
     'oracle by exactly rounded sums')

prop('C19', 'The score histogram loses no score',
     'The histogram of scores over a domain has one bin per score level, '
     'counts every finite score exactly once, at the level nearest to it, with '
     'scores beyond the ends counted at the end levels, and returns the levels '
     'themselves. Histograms of parts sum up to the histogram of the whole, '
     'and non-finite scores or domains are refused with an error.',
     ['inputs', 'configurations'],
     'score vectors on, between and far outside levels; domains with integer, '
     'decimal, fractional strides; numbers of bins',
     'The tests compare one vector with the default domain.',
     [K + 'metrics/real.py', K + 'metrics/base.py'],
     [('histogram', K + 'metrics/real.py: score_histogram'),
      ('bins', K + 'metrics/base.py: generate_score_bins')],
     [], ['score_histogram', 'generate_score_bins'],
     'conservation, additivity and nearest-level monitors')

prop('C20', 'The item finder metric is the AUC, and binary checks are exact',
     'The reported area under the ROC curve is the probability that a random '
     'positive is ranked above a random negative, ties counting one half, and '
     'the statistics of truths and predictions equal their definitions. The '
     'check of binary scores accepts exactly sets of 0 and 1, with one of them '
     'alone only where allowed, illegal inputs are refused with an error, and '
     'printed reports show the returned numbers.',
     ['inputs'],
     'binary truths and real predictions of any type, with ties, skew and '
     'perfect separation',
     'The tests compare one or two small vectors.',
     [K + 'metrics/item_finder.py', K + 'utils/base.py'],
     [('report and statistics', K + 'metrics/item_finder.py: '
       'item_finder_report, item_finder_statistics'),
      ('binary check', K + 'utils/base.py: is_binary_score')],
     [], ['item_finder_report', 'item_finder_statistics', 'is_binary_score'],
     'oracle counting pairs')

prop('C21', 'The variance with a gamma prior follows its definition',
     'The variance equals (2b + the sum of squared deviations) / (2a + n) of '
     'the finite data for prior parameters a and b, is finite and positive '
     'also for constant or single data, and depends neither on the order nor '
     'the type nor the shape of data. Non-finite data are excluded from it and '
     'from the reported count, or refused when only finite data are allowed; '
     'data without any finite value are refused.',
     ['inputs'],
     'samples of any type, shape, scale and order with NaN and infinities, '
     'and priors of many sizes',
     'The tests check one or two short samples.',
     [K + 'metrics/real.py'],
     [('variance', K + 'metrics/real.py: variance_with_gamma_prior')],
     [], ['variance_with_gamma_prior'],
     'oracle in exact rational arithmetic')

prop('C22', 'Means over folds use every fold once',
     'The mean statistics over folds is the arithmetic mean of the function '
     'applied once to each fold, with the arguments of that fold and never '
     'mixed between folds, whether folds are given as dictionaries with any '
     'keys in any order (also of types derived from dict) or as lists. '
     'Arguments of other types are refused.',
     ['inputs'],
     'any number of folds, arguments, keys and orders, scalar and array '
     'valued functions',
     'The tests use one example of each form.',
     [K + 'metrics/base.py'],
     [('mean over folds', K + 'metrics/base.py: statistics_mean')],
     [], ['statistics_mean'],
     'call-log monitor: each call of the function is recorded and compared')

prop('C23', 'The safe sigmoid is accurate, bounded and quiet',
     'The safe sigmoid equals 1/(1+exp(-x)) within rounding, is clipped into '
     '[1e-15, 1-1e-15], is monotone and element-wise with the shape of its '
     'argument, and never overflows or warns, whatever finite or infinite '
     'numbers are given. The argument is not changed.',
     ['inputs'],
     'double precision arguments from subnormal to infinite, scalars, lists, '
     'matrices of any layout',
     'The tests look at six arguments.',
     [K + 'utils/kammath.py'],
     [('sigmoid', K + 'utils/kammath.py: safe_sigmoid')],
     [], ['safe_sigmoid'],
     'oracle by scalar mathematics, floating point warnings as errors')

prop('C24', 'Random splits are made within each group',
     'In every split the training and test sets are disjoint sets of valid '
     'indices, and in every group their sizes are those that the requested '
     'test and train sizes give for a group of that size; when only one of the '
     'sizes is requested every datum is in one of the sets. Without shuffling '
     'the first members of a group are for training and the next for test; '
     'with it every member can be drawn, groups are drawn independently of '
     'each other, and the same seed gives the same splits.',
     ['inputs', 'configurations'],
     'any group labels of any type and order, group sizes, fractions and '
     'counts, seeds, generators, input kinds and interleaved iterators',
     'These classes are not covered by the stable tests at all.',
     [SPLIT],
     [('splits', SPLIT + ': ShuffleSplitWithinGroups.split, _iter_masks')],
     [], ['ShuffleSplitWithinGroups.split'],
     'set-algebra monitors per split and group; spread over many splits')

prop('C25', 'K-fold splits partition the data within each group',
     'Over the folds of the k-fold splitters each datum is tested exactly '
     'once, each training set is the complement of its test set, and each '
     'group is divided into folds whose sizes differ by at most one, '
     'consecutive without shuffling, and with it reproducible by seed and '
     'independent of the other groups. The '
     'interlaced splitter puts the i-th datum into the fold i modulo the '
     'number of folds; illegal parameters are refused with an error.',
     ['inputs', 'configurations'],
     'any number of folds, groups of any label type and order, shuffling, '
     'seeds, input kinds, and interleaved iterators',
     'These classes are not covered by the stable tests at all.',
     [SPLIT],
     [('k-fold within groups', SPLIT + ': KFoldWithinGroups'),
      ('interlaced k-fold', SPLIT + ': InterlacedKFold')],
     [], ['KFoldWithinGroups.split', 'InterlacedKFold.split'],
     'partition monitors per splitter')

prop('C26', 'Conversion for JSON loses nothing',
     'After conversion any nested dictionary or list of numbers, strings, '
     'arrays, sparse matrices and other objects can be dumped as JSON and read '
     'back, with equal values at every leaf: numbers of any width as numbers, '
     'truth values (Python or NumPy ones) as JSON truth values, arrays and '
     'sparse matrices as nested lists of their elements (an array without '
     'dimensions as its element), other objects as their text. Dictionaries and lists are converted in place at '
     'every depth, and arrays in them are not overwritten.',
     ['inputs'],
     'random nested structures with leaves of every numpy and Python scalar '
     'type, arrays and sparse formats',
     'The tests convert one small structure.',
     [K + 'utils/kamexputils.py'],
     [('conversion', K + 'utils/kamexputils.py: json_decodable')],
     [], ['json_decodable'],
     'round-trip monitor through the JSON encoder')

prop('C27', 'Hold-out experiments report the model on the given files',
     'A hold-out run of an experiment script writes, for every event of the '
     'test file in order, the event, its true score (binarised by the item '
     'finder script at the centre of the domain), its features and the '
     'prediction of the requested model trained with the requested options on '
     'exactly the training file. The numbers of events, users and items, file '
     'names, options, domain, times, software and system it reports are those '
     'of the run, input files are untouched, and a run without test data fails instead of '
     'reporting.',
     ['inputs', 'configurations'],
     'pairs of training and test files with known and unknown objects, all '
     'methods and options, with and without timestamps and domains, files '
     'given by options, redirection or standard streams',
     'No test runs the scripts.',
     SCR,
     [('hold-out test', 'scripts/exp_recsys_util.py: holdout_test, training, '
       'testing'), ('options and loading', 'scripts/exp_recsys_sp.py, '
                    'scripts/exp_recsys_if.py: load_data, init_info')],
     [], ['JSON output of the scripts'],
     'end-to-end runs; every field of the report compared with an independent '
     'training on the same files')

prop('C28', 'Cross validation runs and merged folds are consistent',
     'In a cross validation run each fold tests 20% of the ratings of every '
     'user (rounded up), each test event being reported with its own position, '
     'true score, features and the prediction of the model trained on exactly '
     'the other events. Running one fold alone gives the same as that fold of '
     'the whole run, merging the results of folds, in any order, gives the '
     'results of the whole run, and a fold number that does not exist is '
     'refused.',
     ['inputs', 'histories', 'configurations'],
     'event files with two or more events per user, all methods, options, '
     'numbers of folds, orders and subsets of folds to merge',
     'No test runs the scripts.',
     SCR + ['scripts/exp_recsys_fold_merge.py'],
     [('cross validation', 'scripts/exp_recsys_util.py: cv_test'),
      ('merge', 'scripts/exp_recsys_fold_merge.py: first_fold, rest_fold')],
     [], ['JSON output of the scripts'],
     'differential runs: whole run, single folds, and merges; re-training on '
     'the complement')

prop('C29', 'Statistics of experimental results equal their definitions',
     'The statistics script computes each statistic from the true and '
     'predicted scores of all folds together, every datum counted once and '
     'paired with its own prediction, with the score domain of the '
     'experiment. It keeps the description of the experiment, drops the '
     'predictions unless asked to keep them, and leaves the input file '
     'untouched. Broken results and those of unknown kinds are refused.',
     ['inputs', 'configurations'],
     'results of hold-out and cross validation, of both tasks, generated or '
     'produced by the scripts, with folds of uneven sizes in any order',
     'No test runs the script.',
     ['scripts/stats_recsys.py', K + 'metrics/score_predictor.py',
      K + 'metrics/item_finder.py'],
     [('statistics', 'scripts/stats_recsys.py: do_task')],
     [], ['JSON output of the script'],
     'oracle computing the statistics from the input file')

prop('C30', 'A refitted or refilled object equals a fresh one',
     'After any history of fits, failed or interrupted fits and predictions, '
     'fitting a recommender to data gives the same model as a new recommender '
     'with the same options and seed. After any history of events and features, a '
     'container whose events are set again equals a new container with these '
     'events.',
     ['histories', 'crash_points'],
     'random histories of fits to data of equal, smaller and larger sizes, '
     'other layouts and columns, refused fits, fits interrupted at a random '
     'instant, and of container operations',
     'The tests fit each model once.',
     [REC, SPM, SPT, IFM, EVENT, SCORE],
     [('starting parameters', SPM + ', ' + IFM + ': _init_coef; ' + SPT +
       ': _init_params'), ('summary of training', SPM + ', ' + SPT + ', ' +
                           IFM + ': fit')],
     [], ['fit', 'set_event'],
     'differential monitor: used object against fresh object')

prop('C31', 'Operations change nothing but the documented object',
     'Except for conversions documented to work in place, no public operation, '
     'importing modules included, changes its arguments, other live containers '
     'or models, or the state of the process that belongs to the user (global '
     'random numbers, floating point error handling, warnings, working '
     'directory, environment, standard streams). Repeating an operation gives '
     'the same result, also after the caller has overwritten the previous '
     'result or the arguments passed before.',
     ['inputs', 'histories'],
     'every public operation with arguments of many types and layouts, '
     'followed by overwriting of results and arguments and by repetition',
     'Tests check results, not what else has changed.',
     [BASE, EVENT, SCORE, REC, LOAD, SPLIT, K + 'metrics/real.py',
      K + 'utils/kamexputils.py'],
     [('copies of arguments', EVENT + ': set_event; ' + SCORE +
       ': set_event; ' + BASE + ': set_feature'),
      ('copies of results', REC + ': get_event; ' + SPB + ': get_score')],
     [], ['all public functions and methods'],
     'snapshots of arguments, other objects and process state around every '
     'operation')

prop('C32', 'Any history over many containers and models keeps all consistent',
     'During any history of creating, setting, filtering, binarising, copying, '
     'pickling, training and failing operations over a population of '
     'containers and models, every live container keeps equal to its own '
     'sequence of operations and every trained model keeps its predictions. '
     'A query, conversion, filter or training that is refused or interrupted '
     'leaves all containers as they were.',
     ['histories', 'fault_sequences', 'crash_points'],
     'random histories of up to dozens of operations, legal, illegal or '
     'interrupted at a random instant, over a population of live objects',
     'The tests perform one or two operations on one object.',
     [BASE, EVENT, SCORE, REC],
     [('operations of containers', EVENT + ', ' + SCORE + ', ' + BASE),
      ('models', REC)],
     [], ['public state of all live objects after each step'],
     'stateful history monitor with a reference model of each live object')


prop('C33', 'What is left out takes its documented default',
     'A call with any of the optional parameters left out gives the same as '
     'the call with the documented defaults given, by name or by position in '
     'the documented order: of models, their fitting, splitters, metrics, '
     'data containers and loaders. Information on versions and the system is '
     'that of the running interpreter, and names no host unless asked.',
     ['inputs', 'configurations'],
     'any subset of the optional parameters left out, any data, any random '
     'seed',
     'Tests fix one set of parameters; a changed default gives other, '
     'plausible numbers in every program that relies on it.',
     [SPM, SPT, IFM, SPLIT, LOAD, SCORE, EVENT, K + 'metrics/real.py',
      K + 'metrics/score_predictor.py', K + 'utils/kamexputils.py',
      K + 'utils/base.py'],
     [('parameters of models', SPM + ': PMF.__init__; ' + SPT +
       ': MultinomialPLSA.__init__; ' + IFM + ': LogisticPMF.__init__'),
      ('parameters of splitters', SPLIT + ': __init__'),
      ('parameters of loaders', LOAD + ': load_event_with_score')],
     [], ['all optional parameters of public functions'],
     'differential monitor between calls with left out and with explicit '
     'parameters')

prop('C34', 'Recommenders written on the base classes get the right data',
     'A recommender that a user derives from the base classes of score '
     'predictors or item finders receives, when fitted, exactly the selected '
     'columns of all training events as internal ids, with the numbers of '
     'objects of these columns and the scores in the order of events. When '
     'predicting, its raw prediction is called with the internal ids of all '
     'queried events in order, unknown objects being marked by the number of '
     'objects, and what it returns is what the user gets.',
     ['inputs', 'configurations', 'histories'],
     'any data set and layout, any selection of any number of columns, any '
     'queries, after any history of fits',
     'The tests only run the models of the package, which use two columns.',
     [REC, SPB, IFB, EVENT],
     [('training events and numbers of objects', REC +
       ': BaseEventRecommender.fit, get_event'),
      ('scores', SPB + ': get_score'),
      ('conversion of queries', REC + ': BaseEventRecommender.predict')],
     [('event, score, n_objects, event_index', 'training data as seen by a '
       'model', REC)],
     ['get_event', 'get_score', 'get_event_array', 'raw_predict'],
     'recommenders that record what the base classes hand to them, compared '
     'with the reference model of the data')

prop('C35', 'Reports of training are complete and truthful',
     'After training, a model reports the losses before and after, the '
     'numbers of users, items and events of its data, the number of learned '
     'parameters, the iterations done, and the options of the optimiser used. '
     'Success, status code and message agree with each other and with what '
     'happened: success only if the convergence criterion was met, and the '
     'message of the iteration limit only if that limit ended training. '
     'Reports belong to the last training only and can be dumped as JSON.',
     ['inputs', 'configurations', 'histories'],
     'all models, data, options and limits, converging or not, trained for '
     'the first time or again',
     'The tests look at the losses of a few trainings.',
     [SPM, SPT, IFM, K + 'utils/base.py'],
     [('reports', SPM + ', ' + SPT + ', ' + IFM + ': fit'),
      ('messages', K + 'utils/base.py: get_fit_status_message')],
     [('fit_results_', 'the report of a training', SPM)],
     ['fit_results_', 'get_fit_status_message'],
     'monitor of reports against the data, the public parameters, and '
     'trainings by other limits')

prop('C36', 'Options of recommenders can be read, changed and cloned',
     'A recommender reports the options that it was given, or their documented '
     'defaults, as the parameters of a scikit-learn estimator. Options changed '
     'by set_params or by attribute, before the first or a later training, '
     'train the same model as a new recommender with these options. A clone '
     'is an unfitted recommender of the same class that trains the same '
     'model, options of the optimiser and state of a generator included, and '
     'using it changes nothing of the original. Changing a report of training '
     'does not change the next training. Unknown options are refused.',
     ['inputs', 'configurations', 'histories'],
     'all recommenders, and one derived by a user, with any options, any '
     'history of fits and changed options, seeds and generators',
     'No test changes an option after construction or clones a recommender.',
     [REC, SPM, SPT, IFM],
     [('options', SPM + ', ' + SPT + ', ' + IFM + ': __init__, fit'),
      ('cloning', REC + ': BaseRecommender.__sklearn_clone__')],
     [('C, k, alpha, use_expectation, random_state, optimizer_kwargs',
       'options', SPM)],
     ['get_params', 'set_params', 'sklearn.base.clone', 'fit', 'predict'],
     'differential monitor: recommenders with changed options, and clones, '
     'against new ones, after histories of fits and changes')

prop('C37', 'Tools explain themselves, refuse what is illegal, and keep '
     'messages out of results',
     'Asked for help or its version, wherever the option occurs among other '
     'legal ones, a script or converter explains itself or prints its version '
     'and succeeds, without training and without creating or changing any '
     'file other than an output named on the command line. Unknown options, unknown methods and validation schemes, '
     'contradictory options, numbers that are not numbers and input files '
     'that do not exist are refused with an error status, and nothing is '
     'trained, written as a result or changed otherwise. Messages never become a part '
     'of a result, nor does the result depend on whether they are asked for, '
     'and a quiet run that succeeds prints none. A run or conversion whose '
     'result cannot be written as a whole fails.',
     ['inputs', 'configurations'],
     'every script and converter, any legal options beside the tested one, in '
     'any order; results written to a file, to the standard output or to a '
     'device that becomes full after any number of bytes; sample '
     'directories with files converted before',
     'No test runs the scripts or the converters.',
     ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
      'scripts/exp_recsys_fold_merge.py', 'scripts/stats_recsys.py',
      'data/movielens100k.py', 'data/movielens1m.py', 'data/sushi3.py',
      'data/flixster.py', 'data/movielens_mini.py'],
     [('options of scripts', 'scripts/*.py: command_line_parser'),
      ('help of converters', 'data/*.py: main routine')],
     [],
     ['exit status, standard output and error, files of the scratch '
      'directory'],
     'monitor of exit status, output streams, trainings and file images '
     'around command lines of every tool')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, sklearn"',
        'checks': [dict(
            property=p['id'],
            quick_cmd='mon/check.sh %s' % p['id'],
            thorough_cmd='mon/check.sh %s --tier thorough' % p['id'],
            technique='runtime monitoring: ' + t,
            level='exploration',
            level_note='Sampled executions of the real code only: what the '
            'monitor observed held; nothing is claimed beyond the workloads '
            'counted in the evidence file.',
        ) for p, t in P],
        'not_applicable': [],
        'notes': 'Checks import the code of /repo\'s working tree (KAM_REPO '
        'overrides), fork 8 workers, and keep all files in a scratch '
        'directory that they remove. No hooks in /repo are needed.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
