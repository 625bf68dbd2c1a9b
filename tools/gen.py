"""Writes properties.jsonl and MANIFEST.json (the committed outputs) from the descriptions below. Not run by any check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level_note, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
               'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                           'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': list(observe), 'hook_needed': None}},
              level_note))


MEM, DB, ABC = 'DRecPy/Dataset/mem_dataset.py', 'DRecPy/Dataset/db_dataset.py', 'DRecPy/Dataset/dataset_abc.py'
FAC, FU, INT = 'DRecPy/Dataset/dataset_factory.py', 'DRecPy/Dataset/file_utils.py', 'DRecPy/Dataset/integrated_datasets.py'
REC = 'DRecPy/Recommender/recommender_abc.py'
BASE = 'DRecPy/Recommender/Baseline/'
TESTS = 'The existing tests run a handful of fixed tables'

prop('C01', 'Queries return exactly the matching records on every kind of dataset',
     'A query made of comparisons (==, !=, <, <=, >, >=) joined by commas, over any column, selects exactly the records a plain row-by-row '
     'filter selects, also when queries are chained; in-memory and database datasets agree, for integer identifiers of any size, decimals and '
     'strings with quotes, spaces, commas or symbols, before and after internal ids are assigned. Selecting one record, testing existence and counting give '
     'answers consistent with that filter. A malformed query is refused and changes nothing.',
     ['inputs', 'histories'], 'every table, query text, chain of selections and storage kind',
     TESTS + ' with integer ids and a few queries; the space of values x operators x storage is not sampled.',
     [MEM, DB], [('query translation to a dataframe filter', MEM + ' _apply_query'), ('query translation to SQL conditions', DB + ' _parse_query, _build_new_state')],
     'Generated search against a naive row filter; identifiers also hold spaces, commas, quotes, line breaks and decimals.', ['select', 'select_one', 'exists', 'len'])
prop('C02', 'Datasets derived from one another stay independent through any history',
     'After any interleaving of selections, deduplications, drops, copies, value changes, id assignments and removals, saves, reads, half-read '
     'iterators, closings and garbage collections over a dataset and the datasets derived from it, each dataset holds exactly the records that it '
     'would hold were it an independent list of rows: an operation that returns a new dataset leaves its source as it was, an in-place '
     'operation changes its own dataset only, an operation that fails changes nothing, and the internal storage optimisations never show.',
     ['histories', 'configurations'], 'every history of operations on a family of datasets sharing storage, every optimisation threshold',
     'The tests run single operations on fresh datasets; sharing bugs need several operations on related instances in a specific order.',
     [DB, MEM], [('query states over a shared table, moved to reduced tables', DB + ' _optimize_states'), ('reference counts of shared tables and open generators', DB + ' copy, close, values')],
     'Model-based random histories against a list-of-rows model, on every backend.', ['values', 'len', 'columns'],
     [('shared table registry', 'which instances and open generators use a table', DB)])
prop('C03', 'Loading yields exactly the records of the source',
     'Loading a CSV file (any delimiter, with or without header, skipped columns, any encoding, any chunk size, in memory or out of memory, also '
     'when memory runs out on the way) or a dataframe (any column labels, any row labels) yields exactly the records of the source, in order, with '
     'values of the type the column holds and record ids 0..n-1. The source is not modified; sources without the required columns are refused.',
     ['inputs', 'configurations', 'fault_sequences'], 'every file content, option combination and storage kind',
     TESTS + ' (one sample file); delimiters, encodings, skipped columns, chunk boundaries and values are not varied.',
     [MEM, DB, FAC], [('pandas loading', MEM + ' __init__'), ('chunked multi-threaded loading and type inference', DB + ' _load_from_csv'), ('fallback to the database', FAC)],
     'Generated files and dataframes against the rows they were generated from.', ['values', 'len', 'columns'])
prop('C04', 'Internal ids number the users and items 0..n-1 and convert both ways',
     'Assigning internal ids gives every distinct user and every distinct item of the dataset its own number, using exactly 0..n-1, the same on '
     'all its records; conversions between raw and internal ids are inverse to each other, unknown ids convert to nothing, and the '
     'conversions agree with what the records show. The assignment does not change any other column, and survives later selections.',
     ['inputs', 'histories'], 'every table, filter and storage kind',
     TESTS + ' with a few integer ids.', [MEM, DB],
     [('mapping dictionaries and factorised columns', MEM + ' assign_internal_ids'), ('row scan with update per id', DB + ' assign_internal_ids')],
     'Generated tables; the bijection and both conversions are checked for every record.', ['user_to_uid', 'uid_to_user', 'item_to_iid', 'iid_to_item', 'values'])
prop('C05', 'Interaction vectors always reflect the current records',
     'At any point of any history, the interaction vector of a user (or item) holds, at each item (or user) internal id, the interaction value of '
     'the current record of that pair and zero elsewhere, whatever vectors were read before, whatever changed in between, whatever the '
     'cache limits, and also when the whole matrix does not fit in memory.',
     ['histories', 'configurations', 'fault_sequences'], 'every history of vector reads and changes, cache limit and injected out-of-memory fault',
     'The tests read vectors of one unchanged table; staleness needs a change after a read.', [MEM, DB],
     [('cached sparse matrix', MEM + ' _build_interaction_matrix'), ('bounded per-user and per-item vector caches', DB + ' select_user_interaction_vec')],
     'Random histories with injected MemoryError against vectors computed from the model rows.', ['select_user_interaction_vec', 'select_item_interaction_vec'],
     [('vector caches', 'must be dropped whenever the records change', MEM + ', ' + DB)])
prop('C06', 'Projections and aggregates are exact',
     'Reading any subset of columns gives, for every record and in order, exactly its values (as dicts, lists or bare values); unique keeps exactly '
     'one record per distinct combination of the given columns and count_unique counts them; max and min are the extremes of the column. '
     'Unknown columns are refused, the caller\'s arguments are not modified, and in-memory and database datasets agree.',
     ['inputs'], 'every table, column subset, filter and storage kind', TESTS + ' and few column subsets.', [MEM, DB, ABC],
     [('column handling', ABC + ' _handle_columns'), ('projections', MEM + ' values, unique; ' + DB + ' values, unique')],
     'Generated tables against the model rows.', ['values', 'values_list', 'unique', 'count_unique', 'max', 'min'])
prop('C07', 'What is saved is exactly the dataset, and saved files stay as saved',
     'Saving writes exactly the current records and requested columns: reloading the CSV or sqlite file gives back the same rows, whatever '
     'characters they hold. A file saved by the user changes only when something is saved to it again: opening it, changing, splitting, closing or '
     'collecting datasets loaded from it, or saving a dataset over its own file, never loses or alters its records.',
     ['inputs', 'histories'], 'every table, column subset and history of saves, opens, changes and closes over shared files',
     'The tests save one table once and reload it.', [DB, MEM],
     [('CSV writers', MEM + ' save; ' + DB + ' save'), ('private copies before changing a saved file', DB + ' _copy_to_new_db, _is_persisted_table')],
     'Round trips with an independent CSV / sqlite reader, and random histories over two sqlite files.', ['save', 'files on disk'])
prop('C08', 'Temporary files are removed, even after a crash, and nothing else is',
     'Out-of-memory datasets keep their temporary files in the data folder; once every dataset sharing a file is closed or collected the file is gone, while '
     'a dataset still in use keeps working, also while other processes import the package. After a crash at any point, the next import removes the files '
     'left behind. Files of the user are never removed, and one being saved over holds the old or the new records.',
     ['histories', 'crash_points'], 'every history of creations, derivations, closes and collections, and every point at which the process dies',
     'The tests do not look at the files left behind and never crash.', [FU, DB, 'DRecPy/__init__.py'],
     [('register of temporary files, cleaned on import', FU), ('closing the last user of a file', DB + ' close')],
     'Random histories, and child processes killed at a random step, against a model of which files must exist.', ['data folder', 'package import'])
prop('C09', 'Random record and null pair generators draw only valid samples, and all of them',
     'The random record generator yields only current records that satisfy its query, unchanged, and can yield every one of them; the null '
     'pair generator yields only user-item pairs with no record (or, given a threshold, none with a value at or above it), and can yield every one of them. '
     'The same seed gives the same sequence, whatever the storage; interleaved generators do not disturb one another, and sampling leaves the dataset unchanged.',
     ['inputs', 'histories'], 'every table, filter, query, threshold and seed', 'The tests draw a few samples from one table.',
     [MEM, DB], [('user draw followed by record draw', MEM + ' _select_random_generator; ' + DB + ' _select_random_generator'), ('rejection of existing pairs', MEM + ' null_interaction_pair_generator; ' + DB)],
     'Generated datasets; every draw is checked for validity and coverage is checked with a negligible chance of a false alarm.', ['select_random_generator', 'null_interaction_pair_generator'])
prop('C10', 'The point sampler draws correct positive and negative pairs in the asked ratio',
     'Every sampled triple is either a record of the dataset at or above the threshold with its true interaction value, or a pair which is not '
     'positive, with value 0; the requested number is always returned, negatives and positives come in the ratio asked for, every positive can be '
     'drawn, and equal seeds give equal samples.',
     ['inputs'], 'every dataset, ratio, threshold and seed', 'The tests compare a few draws on one table.', ['DRecPy/Sampler/point_sampler.py', MEM, DB],
     [('coin per sample, two generators', 'DRecPy/Sampler/point_sampler.py')], 'Generated datasets against the model rows; the ratio by a statistical bound.', ['sample', 'sample_one', 'sample_positive', 'sample_negative'])
prop('C11', 'The list sampler returns true, ordered sequences, their targets and negatives',
     'Every sampled group sequence consists of records of one group, at or above the threshold, in the order of the sort column, contiguous and '
     'within the size limits; its targets are exactly the records that follow it, and its negative ids are distinct and never among the '
     'group\'s positives. The number asked for is returned or the request is refused; equal seeds give equal samples.',
     ['inputs', 'configurations'], 'every dataset, grouping, size limits, ratio, threshold and seed', 'The tests draw from one table with integer ids, with few parameters.',
     ['DRecPy/Sampler/list_sampler.py'], [('group choice, window and targets', 'DRecPy/Sampler/list_sampler.py sample_group_records')],
     'Generated datasets and parameters against the model rows.', ['sample_group_records'])
prop('C12', 'leave_k_out holds out k records of every user, deterministically',
     'leave_k_out puts every record of each kept user, unchanged, in exactly one of train and test: k records per user (or the given share) in '
     'test, users that cannot spare them entirely in train, and users with fewer than the minimum number of interactions in neither. The same seed '
     'gives the same split for any number of threads, any thread schedule and any storage, and the source is not modified; with last timestamps, '
     'the held-out records are the latest.',
     ['inputs', 'schedules', 'configurations'], 'every dataset, k, minimum, seed, thread count and schedule', 'The tests split one table with a few seeds, and do not vary the schedule.',
     ['DRecPy/Evaluation/Splits/leave_k_out.py'], [('per-user tasks on a thread pool with per-user generators', 'DRecPy/Evaluation/Splits/leave_k_out.py')],
     'Generated sources with several thread counts and a tiny thread switch interval. Holding out the latest records of unsorted data is a known finding.', ['train', 'test', 'the source'])
prop('C13', 'matrix_split tests on a random sub-matrix of users and items, deterministically',
     'The test set is exactly the records of a sample of users and a sample of items, of the given shares, except that a user whose every record '
     'would be taken keeps all of them in train; every other record, unchanged, is in train, and users with fewer than the minimum number of interactions are in neither. '
     'The same seed gives the same split for any number of threads and any storage; the source is not modified.',
     ['inputs', 'schedules', 'configurations'], 'every dataset, ratios, minimum, seed and thread count', 'The tests split one table with a few seeds.',
     ['DRecPy/Evaluation/Splits/matrix_split.py'], [('per-user tasks', 'DRecPy/Evaluation/Splits/matrix_split.py')],
     'Generated sources; the checker searches for a choice of users and items that explains the result.', ['train', 'test', 'the source'])
prop('C14', 'random_split partitions the records in the given proportion, deterministically',
     'random_split puts every record, unchanged, in exactly one of train and test, with the test set of the requested share of the records; '
     'the same seed gives the same split whatever the storage, any record can end up in either, and the source is not modified. '
     'Ratios outside (0, 1) are refused.',
     ['inputs'], 'every dataset, ratio and seed', 'The tests split one table.', ['DRecPy/Evaluation/Splits/random_split.py'],
     [('sampling of record ids', 'DRecPy/Evaluation/Splits/random_split.py')], 'Generated sources against the partition contract.', ['train', 'test', 'the source'])
prop('C15', 'Ranking metrics equal their definitions',
     'For every ranking, set of relevant items, relevance values and cut-off, the ranking metrics (DCG, NDCG, hit ratio, reciprocal rank, recall, '
     'precision, F-score, average precision) return the value of their textbook definition at that cut-off, and do not modify their arguments.',
     ['inputs'], 'every ranking, relevance and cut-off', 'The tests check hand-computed values.', ['DRecPy/Evaluation/Metrics/ranking.py'],
     [('metric formulas', 'DRecPy/Evaluation/Metrics/ranking.py')], 'Differential testing against independently written definitions.', ['metric call'])
prop('C16', 'Error metrics and predictive evaluation are exact',
     'Error metrics (MAE, MSE, RMSE) equal their definitions; a predictive evaluation reports the metric over exactly the test records asked for '
     'for which the model has a prediction, each counted once with its own true value, whatever pairs are unknown or fail when errors are '
     'skipped. Invalid arguments are refused, and the test data are not modified.',
     ['inputs', 'fault_sequences'], 'every model behaviour, test dataset and option', 'The tests use one fitted model on one dataset.',
     ['DRecPy/Evaluation/Metrics/regression.py', 'DRecPy/Evaluation/Processes/predictive_evaluation.py'], [('evaluation loop', 'DRecPy/Evaluation/Processes/predictive_evaluation.py')],
     'Differential testing with table-driven models whose predictions are known.', ['returned metrics'])
prop('C17', 'Ranking evaluation reports the true metrics of the rankings',
     'Ranking evaluation averages each given metric (metrics of the same class separately), at each cut-off, over exactly the requested test users that have enough positives: each user is judged '
     'on the model\'s ranking of the sampled positive and negative test items, relevance being the test values; generated negatives are items known to the model that are not positive. The result does not depend on the '
     'number of threads or their schedule, is reproducible by seed, and a failing user does not affect the others.',
     ['inputs', 'schedules', 'fault_sequences'], 'every model, test dataset, sampling option, cut-off, seed and thread schedule',
     'The tests compare a few rounded numbers of one model.', ['DRecPy/Evaluation/Processes/ranking_evaluation.py'],
     [('per-user tasks adding to shared sums', 'DRecPy/Evaluation/Processes/ranking_evaluation.py')], 'Differential testing with table-driven models; generated negatives are checked through a recording model.', ['returned metrics', 'items given to the model'])
prop('C18', 'Recommendation evaluation reports the true metrics of the recommendations',
     'Recommendation evaluation averages each given metric (metrics of the same class separately), at each cut-off, over exactly the requested test users with enough positives: each user is judged on '
     'the model\'s top recommendations against the user\'s positive test items and test values. The result does not depend on the number of threads '
     'or their schedule, is reproducible by seed, and a failing user does not affect the others.',
     ['inputs', 'schedules', 'fault_sequences'], 'every model, test dataset, option, cut-off, seed and thread schedule', 'The tests compare a few rounded numbers of one model.',
     ['DRecPy/Evaluation/Processes/recommendation_evaluation.py'], [('per-user tasks adding to shared sums', 'DRecPy/Evaluation/Processes/recommendation_evaluation.py')],
     'Differential testing with table-driven models.', ['returned metrics'])
prop('C19', 'Similarity functions equal their definitions',
     'Every similarity function (cosine, adjusted cosine, co-rated cosine, Jaccard, mean squared difference, Pearson) returns, for every matrix, the '
     'symmetric matrix of the defined similarity between each two rows (trailing rows similar to none may be left out), also when the fast path runs out of memory, without changing its argument.',
     ['inputs', 'fault_sequences'], 'every sparse matrix and input format', 'The tests use one small matrix.', [BASE + 'similarity.py'],
     [('row-pair merges', BASE + 'similarity.py')], 'Differential testing against dense definitions.', ['similarity matrix'])
prop('C20', 'KNN recommenders predict exactly what the neighbourhood formula says',
     'User and item KNN predictions equal the aggregation of the interactions of those of the k most similar neighbours (among the co-rated ones) that have that interaction, for every similarity, '
     'co-rating minimum, shrinkage and aggregation, falling back to averages when asked; ranking and recommendation agree with the predictions. '
     'Predictions do not depend on the storage of the dataset, nor on what the model was fitted on before.',
     ['inputs', 'histories', 'configurations'], 'every dataset, parameter combination and fit history', 'The tests compare a few predictions on one table.',
     [BASE + 'base_knn.py', BASE + 'user_knn.py', BASE + 'item_knn.py', BASE + 'aggregation.py'], [('similarities and neighbours', BASE + 'base_knn.py')],
     'Differential testing against a naive reference implementation.', ['predict', 'rank', 'recommend'])
prop('C21', 'Every recommender ranks and recommends consistently with its scores',
     'For every fitted recommender, ranking (items given once each) returns the requested known items only, none twice, ordered by decreasing score and with the score of each item, at most n of '
     'them and none the user already has when novelty is asked; recommending does the same over all items and applies the score '
     'threshold. Raw ids go in and come out; unknown users and (unless skipped) unknown items are refused, as is anything before fitting.',
     ['inputs', 'configurations'], 'every model, dataset, item list and option', 'The tests rank a few items with each model.',
     [REC, 'DRecPy/Recommender/cdae.py', 'DRecPy/Recommender/dmf.py', 'DRecPy/Recommender/caser.py', BASE + 'user_knn.py', BASE + 'item_knn.py'],
     [('id translation, novelty filter and top-n', REC + ' rank, recommend, _rank')], 'Generated datasets and requests; table-driven models give an exact oracle, the trained models a relational one.', ['predict', 'rank', 'recommend'])
prop('C22', 'Training is reproducible by seed and independent of the storage',
     'Two models with equal parameters and seed, fitted on equal datasets, make equal predictions, whether the data are in memory or in a database, '
     'whatever randomness other code uses meanwhile, and a model fitted again is as one fitted for the first time. Fitting gives the model the '
     'statistics of the data and leaves the records as they are; with a copy asked for, the caller\'s dataset stays entirely untouched.',
     ['inputs', 'histories', 'configurations'], 'every dataset, parameter combination, seed and history of fits', 'The tests check fixed predictions on one table.',
     [REC, 'DRecPy/Recommender/cdae.py', 'DRecPy/Recommender/dmf.py', 'DRecPy/Recommender/caser.py'], [('seeded generators', REC + ' __init__, fit')],
     'Metamorphic testing of pairs of trainings.', ['predictions after fit'])
prop('C23', 'Epoch callbacks and early stopping leave the model at the best epoch',
     'Training with progress logs or a rule runs the epoch callback at exactly the epochs of its frequency (with progress logs also once before the first), passes the true history of losses and results to the early stopping rule, stops '
     'when the rule says so, and ends with the weights the model had at the epoch the rule chose. The maximum-value rule picks the first epoch with '
     'the highest value of its metric.',
     ['inputs', 'histories', 'configurations'], 'every number of epochs, frequencies, sequence of results and kind of trainable', 'The tests run few epochs and compare no weights.',
     [REC, 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py', 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'],
     [('weights stored per epoch and reverted', REC + ' _store_epoch_weights, _revert_weights')], 'Generated schedules with models whose weights after each epoch are known.', ['weights', 'callback calls', 'rule arguments'])
prop('C24', 'The loss tracker keeps the true history',
     'After any sequence of updates and resets, the loss tracker holds exactly the losses and callback results added, in order, with the epochs at '
     'which they were reported, and its average is the mean of the losses since the last reset.',
     ['histories'], 'every sequence of updates', 'The tests add a few values.', ['DRecPy/Evaluation/loss_tracker.py'], [('running mean', 'DRecPy/Evaluation/loss_tracker.py')],
     'Model-based random histories.', ['epoch_losses', 'get_epoch_avg_loss', 'epoch_callback_results', 'called_epochs'])
prop('C25', 'A saved model loads back with the same answers',
     'A recommender saved to a file and loaded again, in the same or another process, gives the same predictions, rankings and recommendations, '
     'however its dataset is stored and whatever became of the original; saving does not change the model, a loaded model can be saved, loaded and '
     'fitted again like any other, and models loaded from one file are independent.',
     ['inputs', 'configurations', 'histories'], 'every model, parameters, dataset and history of saves, loads and fits', 'The tests do not compare answers after loading.', [REC], [('joblib dump and load', REC + ' save, load')],
     'Round trips over generated datasets and models.', ['save', 'load', 'predict', 'rank'])
prop('C26', 'Built-in datasets load the downloaded records; train and test partition them',
     'For every built-in dataset, the full dataset holds exactly the records of the downloaded file, in memory or not, on the first call (which '
     'downloads) and on every later one; train and test hold the records of their files, or a partition of the full data that is the same on every '
     'call, in any order of calls, after failed downloads and after a crash at any point. Unknown names are refused.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'every file content, order of calls, failing download and point at which the process dies', 'The tests do not exercise downloads or generated splits.', [INT],
     [('download, extraction and cached splits', INT)], 'Generated archives served by a stand-in for the network, against the rows they were made from.', ['get_full_dataset', 'get_train_dataset', 'get_test_dataset'])

prop('C27', 'Trained recommenders score with their network and learn by its gradient',
     'The scores of a fitted CDAE, DMF or Caser are those of the network it is defined as, with its trained weights, on the data it was fitted on (no corruption or dropout, for Caser '
     'on the last L items of the user), for every network size and option. An epoch moves the trained weights by exactly the step the optimizer takes on the loss (the defined error '
     'plus regularisation) of some batch of the asked size that the data admit, and reports that loss.',
     ['inputs', 'configurations'], 'every dataset, network size, option, optimizer and batch', 'The tests pin the predictions of a few fixed configurations.',
     ['DRecPy/Recommender/cdae.py', 'DRecPy/Recommender/dmf.py', 'DRecPy/Recommender/caser.py', REC],
     [('network definitions', 'DRecPy/Recommender/cdae.py _reconstruct; dmf.py _predict_batch; caser.py _predict_batch_aux'), ('training loop', REC + ' fit, _update_weights')],
     'A numpy network on the trained weights; the weights before and after an epoch against gradient steps on the batches the data admit, searched exhaustively.', ['predict', 'rank', 'fit'])
prop('C28', 'Threads sharing a dataset get what each would get alone',
     'Several threads may use one dataset at the same time: each one reads, queries, aggregates, samples, saves, reads interaction vectors and derives (and, in memory, changes) its own '
     'selections with exactly the results it would get were it alone; no thread fails or waits forever, and the shared dataset stays as it was.',
     ['schedules', 'inputs'], 'every table, storage and interleaving of the operations of several threads', 'The tests use one thread at a time on a dataset.', [MEM, DB],
     [('lock around database operations', DB + ' synchronized'), ('lazily built matrices', MEM + ' _build_interaction_matrix')],
     'Generated operations per thread, with frequent thread switches, against the same operations run alone.', ['select', 'values', 'select_user_interaction_vec', 'save'])

TECH = {
    'C02': 'model-based stateful property testing', 'C05': 'stateful property testing with injected faults', 'C07': 'round-trip and stateful property testing',
    'C08': 'stateful property testing with crash injection', 'C24': 'model-based stateful property testing', 'C25': 'round-trip property testing',
    'C28': 'differential property testing over thread interleavings', 'C27': 'differential property testing against reference networks', 'C22': 'metamorphic property testing', 'C15': 'differential property testing', 'C19': 'differential property testing', 'C20': 'differential property testing',
}
DEFAULT_TECH = 'property-based testing against a reference model'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note in P:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'pbt', 'props', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'bash check.sh {i} thorough',
                           'technique': TECH.get(i, DEFAULT_TECH), 'level': 'exploration',
                           'level_note': note + ' Sampled, not exhaustive; evidence counts the cases and the distinct non-trivial ones.'})
        else:
            na.append({'property': i, 'reason': 'the check is not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'Property-based testing with Hypothesis (vendored in vendor/). No hooks in /repo: everything is driven through the public API. '
                  'VERIF_SEED seeds every random choice; failing cases are shrunk and written to replays/, rerun with: bash check.sh <id> replay <file>.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])


main()
