"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
W = 'The tests run fixed samples with fixed parameters and mostly compare cluster sizes; '
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, observe=(), note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), note=note))


P('P01', 'K-Means returns a Lloyd iteration of its input',
  'For every data set, set of initial centers, metric, tolerance and iteration limit, K-Means (Python and C++) assigns in every iteration each point to a nearest center, replaces each center by the mean of its points, drops centers without points, and stops exactly when no center moved more than the tolerance or the limit is reached. The result is a partition into non-empty clusters whose centers are the means of their points, and the reported total error is the sum of the point to own center distances.',
  ['inputs', 'configurations'], 'all point sets and initial centers, metrics, tolerances, iteration limits, both implementations',
  W + 'ties, empty clusters, coinciding points and every step of the iteration are not enumerated by them.',
  ['pyclustering/cluster/kmeans.py', 'ccore/src/cluster/kmeans.cpp', 'ccore/src/interface/kmeans_interface.cpp', 'pyclustering/core/kmeans_wrapper.py', 'pyclustering/utils/metric.py'],
  [('assignment and mean update', 'kmeans.__update_clusters / __update_centers; kmeans::update_clusters / update_centers'), ('termination', 'kmeans.__calculate_changes; kmeans::process')], ['kmeans.get_clusters/get_centers/get_total_wce', 'kmeans_observer'])
P('P02', 'K-Medians assigns to nearest medians and moves them to the medians',
  'For every data set and initial medians, K-Medians (Python and C++) assigns each point to a nearest median and moves each median to the coordinate-wise median of its points (midpoint of the two middle values for an even amount). Running two iterations equals running one iteration from the medians produced by the first; the result is a partition and the reported total error is the sum of the point to own median distances.',
  ['inputs', 'configurations'], 'all point sets, initial medians, metrics and iteration limits, both implementations',
  W + 'even-sized clusters, ties, duplicated coordinates and more than one dimension are barely touched.',
  ['pyclustering/cluster/kmedians.py', 'ccore/src/cluster/kmedians.cpp', 'ccore/src/interface/kmedians_interface.cpp'],
  [('median update', 'kmedians.__update_medians; kmedians::update_medians, calculate_median'), ('assignment', 'kmedians.__update_clusters; kmedians::update_clusters')], ['kmedians.get_clusters/get_medians/get_total_wce'])
P('P03', 'K-Medoids and PAM BUILD optimise the total deviation',
  'For every data set or distance matrix, K-Medoids ends with distinct objects as medoids, every object in the cluster of a nearest medoid, a total deviation equal to the sum of the distances to the own medoid and never larger than that of the initial medoids; when it stops before the iteration limit no single swap of a medoid with a non-medoid lowers it. PAM BUILD returns distinct objects, each chosen to minimise the total deviation given the previous ones.',
  ['inputs', 'configurations'], 'all symmetric distance matrices / point sets, initial medoids and iteration limits, both implementations',
  W + 'optimality against every possible swap is never compared.',
  ['pyclustering/cluster/kmedoids.py', 'ccore/src/cluster/kmedoids.cpp', 'ccore/src/cluster/pam_build.cpp', 'pyclustering/core/pam_build_wrapper.py', 'pyclustering/core/kmedoids_wrapper.py'],
  [('swap cost', 'kmedoids.__calculate_swap_cost; kmedoids::calculate_swap_cost'), ('BUILD', 'pam_build::calculate_first_medoid / calculate_next_medoids')], ['kmedoids.get_clusters/get_medoids/get_total_deviation/get_labels'])
P('P04', 'DBSCAN finds exactly the density-connected components',
  'For every data set or distance matrix, radius and neighbour threshold, the clusters DBSCAN reports (Python and C++) contain exactly the density-connected components of core points, each non-core point with a core neighbour is in the cluster of one of its core neighbours, and exactly the remaining points are noise. Clusters and noise together contain every index once.',
  ['inputs', 'configurations'], 'all point sets / distance matrices, radii, thresholds, both data types and implementations',
  W + 'points exactly on the radius, duplicates, shared border points are not covered.',
  ['pyclustering/cluster/dbscan.py', 'ccore/src/cluster/dbscan.cpp', 'pyclustering/core/dbscan_wrapper.py', 'pyclustering/container/kdtree.py', 'ccore/src/container/kdtree_searcher.cpp'],
  [('expansion', 'dbscan.__expand_cluster; dbscan::expand_cluster'), ('range search', 'kdtree.find_nearest_dist_nodes; kdtree_searcher')], ['dbscan.get_clusters/get_noise'])
P('P05', 'OPTICS ordering, core and reachability distances follow the definition',
  'For every data set or distance matrix, radius and minpts, OPTICS (Python and C++) reports as core distance the distance to the minpts-th neighbour within the radius, processes objects in order of smallest reachability, reports as reachability the smallest max(core distance, distance) over the core objects processed before, and its clusters contain exactly the density-connected components of core objects with no core object in the noise. Asking for an amount of clusters only ever lowers the radius, and the result then satisfies the same conditions at the reported radius.',
  ['inputs', 'configurations'], 'all point sets / distance matrices, radii, minpts, requested amounts, both implementations',
  W + 'the ordering and the distances are compared on a few samples only; data without any dense object is not tried.',
  ['pyclustering/cluster/optics.py', 'ccore/src/cluster/optics.cpp', 'ccore/src/cluster/ordering_analyser.cpp', 'pyclustering/core/optics_wrapper.py'],
  [('order seed', 'optics.__update_order_seed; optics::update_order_seed'), ('extraction', 'optics.__extract_clusters; optics::extract_clusters'), ('radius search', 'ordering_analyser.calculate_connvectivity_radius')], ['optics.get_clusters/get_noise/get_ordering/get_optics_objects/get_radius'])
P('P06', 'Agglomerative clustering merges the closest pair under its linkage',
  'For every data set, amount of clusters and linkage, agglomerative clustering (Python and C++) returns exactly the requested amount of non-empty clusters partitioning the data, and its results for decreasing amounts form a hierarchy in which every step joins two clusters, and these are at minimum distance under the linkage: smallest pairwise, largest pairwise, average pairwise, or distance between the cluster means.',
  ['inputs', 'configurations'], 'all point sets, amounts of clusters and the four linkages, both implementations',
  W + 'which pair is joined at a step is never compared against every other pair.',
  ['pyclustering/cluster/agglomerative.py', 'ccore/src/cluster/agglomerative.cpp', 'pyclustering/core/agglomerative_wrapper.py'],
  [('merge step', 'agglomerative.__merge_by_*; agglomerative::merge_by_*')], ['agglomerative.get_clusters'])
P('P07', 'BSAS, MBSAS and TTSAS follow the sequential scheme',
  'For every data set in its order, thresholds, cluster limit and metric, BSAS, MBSAS and TTSAS (Python and C++) create or join clusters by the documented rules: a point farther than the threshold from every representative starts a cluster while the limit allows, otherwise it joins the nearest one, TTSAS postpones points between its two thresholds; representatives are the means of their clusters and the clusters partition the data.',
  ['inputs', 'configurations'], 'all point sequences, thresholds, limits, metrics, both implementations',
  W + 'points exactly on a threshold, reached limits and the values of the representatives are not enumerated.',
  ['pyclustering/cluster/bsas.py', 'pyclustering/cluster/mbsas.py', 'pyclustering/cluster/ttsas.py', 'ccore/src/cluster/bsas.cpp', 'ccore/src/cluster/mbsas.cpp', 'ccore/src/cluster/ttsas.cpp'],
  [('sequential assignment', 'bsas.process; bsas::process, mbsas::process, ttsas::process_objects'), ('representative update', '_update_representative; bsas::update_representative')], ['get_clusters/get_representatives'])
P('P08', 'CURE merges the clusters with the closest representatives',
  'For every data set, amount of clusters, amount of representatives and compression, CURE (Python and C++) returns the requested amount of clusters partitioning the data, results for decreasing amounts are obtained by joining the two clusters whose representatives are closest, reported means are the means of the clusters, and representatives are cluster points chosen well scattered and shrunk toward the mean by the compression factor.',
  ['inputs', 'configurations'], 'all point sets, amounts of clusters and representatives, compressions, both implementations',
  W + 'the merge order and the representatives are not compared with their definition.',
  ['pyclustering/cluster/cure.py', 'ccore/src/cluster/cure.cpp', 'pyclustering/core/cure_wrapper.py'],
  [('merge', 'cure.__merge_clusters; cure::merge_clusters'), ('nearest cluster maintenance', 'cure.process, __closest_cluster; cure_queue')], ['cure.get_clusters/get_representors/get_means'])
P('P09', 'ROCK merges the pair of clusters with the best goodness',
  'For every data set, radius, amount of clusters and threshold, ROCK (Python and C++) starts from single objects and always joins the two clusters with the largest goodness measure computed from the links between objects closer than the radius, until the requested amount is reached or no pair has links; the clusters partition the data.',
  ['inputs', 'configurations'], 'all point sets, radii, amounts of clusters and thresholds, both implementations',
  W + 'the chosen pair is never compared with all the other pairs.',
  ['pyclustering/cluster/rock.py', 'ccore/src/cluster/rock.cpp', 'pyclustering/core/rock_wrapper.py'],
  [('pair selection', 'rock.__find_pair_clusters; rock::find_pair_clusters'), ('goodness', 'rock.__calculate_goodness, __calculate_links; rock::calculate_goodness')], ['rock.get_clusters'])
P('P10', 'CLIQUE joins adjacent dense grid cells and loses no point',
  'For every data set, amount of intervals and density threshold, CLIQUE (Python and C++) divides the bounding box into a complete grid of equal cells, puts every point into one cell that contains it, returns as clusters exactly the contents of the connected groups of dense cells, and as noise exactly the points of the sparse cells.',
  ['inputs', 'configurations'], 'all point sets of several dimensions, amounts of intervals and thresholds, both implementations',
  W + 'points on cell borders, flat data and more than a few cells per axis are not enumerated.',
  ['pyclustering/cluster/clique.py', 'ccore/src/cluster/clique.cpp', 'ccore/src/cluster/clique_block.cpp', 'pyclustering/core/clique_wrapper.py'],
  [('grid', 'clique.__create_grid, clique_block.capture_points; clique::create_grid'), ('joining', 'clique.__expand_cluster, get_location_neighbors; clique::expand_cluster')], ['clique.get_clusters/get_noise/get_cells'])
P('P11', 'BANG joins adjacent dense blocks of its binary division of space',
  'For every data set, amount of levels, density threshold and amount threshold, the leaf blocks of BANG are exactly those of the documented binary division (a block is split while it is dense enough and levels remain), each holds exactly the points of its region and reports amount / volume as density; the clusters are exactly the contents of the connected groups of blocks above both thresholds, everything else is noise, no point is reported twice, and the dendrogram names for every cluster exactly its blocks, once each.',
  ['inputs', 'configurations'], 'all point sets of several dimensions, levels and thresholds',
  W + 'points on block borders, thresholds together and more than eight neighbouring blocks are not tried.',
  ['pyclustering/cluster/bang.py', 'pyclustering/utils/__init__.py'],
  [('division', 'bang_directory.__build_level, __split_block; spatial_block.split'), ('joining', 'bang.__expand_cluster_block, __find_block_neighbors; spatial_block.is_neighbor')], ['bang.get_clusters/get_noise/get_directory'])
P('P12', 'Silhouette scores follow the formula, per object; the search returns the best K',
  'For every data set or distance matrix, partition and metric, silhouette (Python and C++) returns for each object, at the index of that object, (b - a) / max(a, b), where a is the mean distance to the other objects of its cluster and b the smallest mean distance to the objects of another cluster. For every choice of initial centers, silhouette_ksearch reports average scores within [-1, 1] for consecutive K, and returns the K with the highest score and that score.',
  ['inputs', 'configurations'], 'all point sets / matrices, partitions in any order, metrics, random choices of the search, both implementations',
  W + 'only the range of the scores is tested, not their values nor to which object they belong.',
  ['pyclustering/cluster/silhouette.py', 'ccore/src/cluster/silhouette.cpp', 'ccore/src/cluster/silhouette_ksearch.cpp', 'pyclustering/core/silhouette_wrapper.py', 'ccore/src/interface/silhouette_interface.cpp'],
  [('score', 'silhouette.__calculate_score; silhouette::calculate_score'), ('search', 'silhouette_ksearch.process; silhouette_ksearch::process')], ['silhouette.get_score', 'silhouette_ksearch.get_amount/get_score/get_scores'])
P('P13', 'The elbow method returns the K farthest from the kmin-kmax segment',
  'For every data set, kmin, kmax, step and initializer, elbow (Python and C++) reports one within-cluster error for every K of kmin, kmin+step, ..., kmax, each the error of a k-means clustering of the data into K clusters started from the requested initializer, and returns the interior K whose point is the farthest from the segment connecting the points of kmin and kmax; arguments outside the documented limits, and only those, are rejected.',
  ['inputs', 'configurations'], 'all point sets, ranges of K, steps, initializers and their random choices, both implementations',
  W + 'two tolerated amounts of clusters per sample are all that is asserted.',
  ['pyclustering/cluster/elbow.py', 'ccore/include/pyclustering/cluster/elbow.hpp', 'pyclustering/core/elbow_wrapper.py', 'ccore/src/interface/elbow_interface.cpp'],
  [('selection', 'elbow.__calculate_elbows, __find_optimal_kvalue; elbow::calculate_elbows')], ['elbow.get_amount/get_wce'])
P('P14', 'KD-tree queries return exactly what a scan of the stored points returns',
  'For every sequence of insertions and removals and every query point and radius, the KD-tree (Python and C++) holds exactly the stored points with their payloads; the range query returns exactly the points within the radius with their distances, the nearest query a point at the smallest distance within the radius, a search by point (and payload) finds a stored point if and only if there is one, and a balanced tree gives the same answers as one built by insertions.',
  ['inputs', 'histories'], 'all point sets with duplicates, operation sequences, query points and radii, both implementations',
  W + 'equal coordinates, removal of inner nodes and points exactly on the radius or on a splitting plane depend on the history of the tree.',
  ['pyclustering/container/kdtree.py', 'ccore/src/container/kdtree.cpp', 'ccore/src/container/kdtree_balanced.cpp', 'ccore/src/container/kdtree_searcher.cpp', 'ccore/src/container/kdnode.cpp'],
  [('removal', 'kdtree.__recursive_remove, __find_minimal_node; kdtree::recursive_remove'), ('search', 'kdtree_balanced.__recursive_nearest_nodes; kdtree_searcher::recursive_nearest_nodes')], ['kdtree.insert/remove/find_*', 'kdtree_balanced.find_*'])
P('P15', 'The CF-tree summarises exactly the inserted points and stays balanced',
  'After every sequence of insertions the CF-tree is height balanced, respects the branching factor and the entry limit, each feature (amount, linear sum, square sum) is the sum of the features below it and the features of the leaves together are exactly those of the inserted points; a point descends to the nearest successor, joins the nearest entry of its leaf exactly when the result stays within the threshold; and a clustering feature reports the centroid, radius, diameter and inter-cluster distances defined by its points.',
  ['inputs', 'histories'], 'all sequences of points, branching factors, entry limits, thresholds and measurements',
  W + 'splits and merges at several heights with coinciding entries depend on the sequence of points.',
  ['pyclustering/container/cftree.py', 'pyclustering/utils/__init__.py'],
  [('insertion', 'cftree.__recursive_insert, __insert_for_leaf_node, __insert_for_noneleaf_node'), ('split and merge', 'cftree.__split_leaf_node, __split_nonleaf_node, __merge_nearest_successors')], ['cftree.insert_point/get_level_nodes', 'cfentry.get_*'])
P('P16', 'Fuzzy C-Means memberships and centers satisfy the documented formulas',
  'For every data set, initial centers and hyper parameter, each iteration of FCM (Python and C++) computes memberships that are non-negative, sum to one per point and follow u_ij = 1 / sum_k (d_ij / d_ik)^(2/(m-1)) (a point on a center belongs to it fully), moves every center to the mean of the points weighted by u^m, stops when no center moves more than the tolerance or at the iteration limit, and puts each point into the cluster of its highest membership.',
  ['inputs', 'configurations'], 'all point sets, initial centers, hyper parameters, tolerances and iteration limits, both implementations',
  W + 'the values of the memberships and points that coincide with centers are not compared.',
  ['pyclustering/cluster/fcm.py', 'ccore/src/cluster/fcm.cpp', 'ccore/src/interface/fcm_interface.cpp', 'pyclustering/core/fcm_wrapper.py'],
  [('memberships', 'fcm.__update_membership; fcm::update_point_membership'), ('centers', 'fcm.__calculate_centers; fcm::update_center')], ['fcm.get_clusters/get_centers/get_membership'])
P('P17', 'BIRCH groups the features of its tree and loses no point',
  'For every data set and parameters, the entries BIRCH extracts from its CF-tree summarise exactly the data, their amount respects the entry limit, the groups of entries are a single-link clustering of their centroids into the requested amount (or fewer if there are fewer entries), and each point is in exactly one cluster: that of a nearest entry.',
  ['inputs', 'configurations'], 'all point sequences, amounts of clusters, tree parameters and measurements',
  W + 'the rebuilding of the tree and points that are equally near to entries are not covered.',
  ['pyclustering/cluster/birch.py', 'pyclustering/container/cftree.py', 'pyclustering/cluster/encoder.py'],
  [('rebuild', 'birch.__insert_data, __rebuild_tree'), ('decoding', 'birch.__decode_data')], ['birch.get_clusters/get_cf_entries/get_cf_cluster'])
P('P18', 'Center initializers choose distinct points by the documented scheme',
  'For every data set or distance matrix and every random choice, K-Means++ (Python and C++) returns the requested amount of distinct points of the data, each next one being the candidate farthest from the chosen ones among those drawn in proportion to the squared distances (or the farthest point of all if requested), and the random initializer returns the requested amount of distinct points of the data.',
  ['inputs', 'configurations', 'schedules'], 'all point sets with duplicates, matrices, amounts of centers and candidates, all random draws, both implementations',
  W + 'only the amount of the returned centers is checked, with random draws that are not controlled.',
  ['pyclustering/cluster/center_initializer.py', 'ccore/src/cluster/kmeans_plus_plus.cpp', 'ccore/src/cluster/random_center_initializer.cpp'],
  [('weighted choice', 'kmeans_plusplus_initializer.__get_next_center, __get_probable_center; kmeans_plus_plus::get_next_center'), ('random choice', 'random_center_initializer.initialize; random_center_initializer::initialize')], ['initialize'])
P('P19', 'X-Means splits a cluster exactly when the criterion improves',
  'For every data set, initial centers, limit and splitting criterion, X-Means (Python and C++) ends with a partition into at most kmax non-empty clusters, each point with a nearest center, the centers being the means and the total error the sum of the squared distances; each cluster is divided in two exactly when the documented score (BIC or MNDL) of the two parts is better than that of the whole, the amount of clusters permitting.',
  ['inputs', 'configurations', 'schedules'], 'all point sets, initial centers, limits, criteria and choices of the seeding, both implementations',
  W + 'the decision to split and limits reached in the middle of an improvement are not compared with the criterion.',
  ['pyclustering/cluster/xmeans.py', 'ccore/src/cluster/xmeans.cpp', 'pyclustering/core/xmeans_wrapper.py'],
  [('structure', 'xmeans.__improve_structure; xmeans::improve_structure'), ('criteria', 'xmeans.__bayesian_information_criterion, __minimum_noiseless_description_length')], ['xmeans.get_clusters/get_centers/get_total_wce'],
  note='Logarithms are uninterpreted monotone functions refined at the values they are applied to.')
P('P20', 'Every metric has its documented value in every representation',
  'For all vectors and every metric type (Euclidean, squared Euclidean, Manhattan, Chebyshev, Minkowski, Canberra, Chi square, Gower, user defined), the value is the documented formula (for Minkowski of an odd degree the differences keep their sign, as documented; otherwise it is symmetric and non-negative), zero for equal vectors, and is the same whether computed by the basic code, by the numpy code for two vectors or whole rows, after toggling numpy usage, or by the C++ core; distance matrices computed through a metric hold exactly these values.',
  ['inputs', 'configurations'], 'all pairs of vectors, degrees and ranges, every metric type and representation',
  W + 'negative, equal, zero and mixed-sign coordinates, non-default degrees and the C++ metric are sampled at a few points only.',
  ['pyclustering/utils/metric.py', 'pyclustering/core/metric_wrapper.py', 'ccore/include/pyclustering/utils/metric.hpp', 'ccore/src/interface/interface_property.cpp', 'ccore/src/utils/metric.cpp'],
  [('formulas', 'utils.metric *_distance, *_distance_numpy; metric.hpp *_distance'), ('dispatch', 'distance_metric.__create_distance_calculator_*; metric_wrapper; distance_metric_factory')], ['distance_metric(a, b)', 'calculate_distance_matrix'])
P('P21', 'Prediction returns the closest cluster of a trained model',
  'After processing by either implementation, prediction for K-Means, K-Medians, K-Medoids, X-Means, G-Means and the SOM cluster analysis returns, for every list of points and every metric, one valid cluster index per point whose center (median, medoid, neuron) is at minimum distance by the metric of the model, and an empty list for a model that was not processed; the model is not changed by it.',
  ['inputs', 'configurations'], 'all training and query points, metrics, both implementations',
  W + 'the predictions are checked for far separated samples and a Euclidean metric only.',
  ['pyclustering/cluster/kmeans.py', 'pyclustering/cluster/kmedians.py', 'pyclustering/cluster/kmedoids.py', 'pyclustering/cluster/xmeans.py', 'pyclustering/cluster/gmeans.py', 'pyclustering/cluster/somsc.py'],
  [('prediction', 'predict of every class')], ['predict'])
P('P22', 'G-Means splits a cluster exactly when its projection is not normal',
  'For every data set, initial amount, limit and outcome of the statistical test, G-Means (Python and C++) returns a partition into at most kmax non-empty clusters whose centers are their means and whose total error is the sum of the point to own center distances; a cluster is divided exactly when the Anderson-Darling statistic of its points, projected on the line through the two candidate centers, reaches the critical value, and the C++ statistic and critical values are those of the formula.',
  ['inputs', 'configurations', 'schedules'], 'all data, amounts, limits, test outcomes and choices of the seeding, both implementations',
  W + 'the statistic and the decision are never compared with their definition, the limit of clusters only on easy samples.',
  ['pyclustering/cluster/gmeans.py', 'ccore/src/cluster/gmeans.cpp', 'ccore/include/pyclustering/utils/stats.hpp', 'ccore/src/utils/stats.cpp', 'pyclustering/core/gmeans_wrapper.py'],
  [('division', 'gmeans._statistical_optimization, _split_and_search_optimal; gmeans::statistical_optimization'), ('test', 'gmeans._is_null_hypothesis; gmeans::is_null_hypothesis, stats::anderson')], ['gmeans.get_clusters/get_centers/get_total_wce'],
  note='scipy.stats.anderson is outside the encoding: in the symbolic runs its outcome is an arbitrary decision, in concrete samples it is the real function.')

P('P23', 'CLARANS replaces a medoid only when the total deviation decreases',
  'For every data set, amounts of clusters, local searches and neighbors, and every sequence of random choices, CLARANS ends, returns as many distinct objects as medoids as clusters were asked for, every object in a cluster of a nearest medoid, a total deviation strictly below that of the initial medoids of a local search unless these are kept, and never above that of the initial medoids of any local search; a search that tried every replacement stops only where none lowers the deviation.',
  ['inputs', 'configurations', 'schedules'], 'all point sets, parameters and random choices',
  W + 'the cost of a replacement, searches that do not end and coinciding medoids are not covered.',
  ['pyclustering/cluster/clarans.py'],
  [('replacement', 'clarans.__optimize_configuration'), ('assignment', 'clarans.__update_clusters')], ['clarans.get_clusters/get_medoids'])
P('P24', 'Conversions between cluster encodings lose nothing',
  'For every data set, assignment of its objects to clusters with or without noise, and chain of conversions between labels, lists of indexes and lists of objects, the cluster encoder keeps the amount of clusters and the objects of every cluster (exactly the same indexes as long as only labels and indexes are involved), never uses an index twice, and leaves the data unchanged.',
  ['inputs', 'configurations'], 'all data with equal objects, assignments with noise and chains of conversions',
  W + 'equal objects, noise and chains of conversions are not enumerated.',
  ['pyclustering/cluster/encoder.py'],
  [('conversions', 'cluster_encoder.__convert_*')], ['cluster_encoder.set_encoding/get_clusters'])
P('P25', 'Self-organized maps: winners, adaptation and captured objects',
  'For every map size, structure of connections, initialization and data set, both implementations of the self-organized map connect exactly the neighboring neurons, pick a nearest neuron as the winner of every object, move only the winner and its neighbors, by the documented rule, towards the object, stop after the requested epochs or when no neuron moved more than the threshold and return how many epochs were performed, and at the end capture every object exactly once by a nearest neuron; SOM-SC clusters are these captures.',
  ['inputs', 'configurations', 'schedules'], 'all data, map sizes, connection structures, thresholds and initial weights',
  W + 'one-row maps, automatic stops at an epoch boundary and returned epochs are not covered.',
  ['pyclustering/nnet/som.py', 'pyclustering/cluster/somsc.py', 'ccore/src/nnet/som.cpp', 'ccore/include/pyclustering/nnet/som.hpp'],
  [('winner', 'som._competition'), ('adaptation', 'som._adaptation'), ('training', 'som.train')], ['som.train/simulate/capture_objects/weights/awards', 'somsc.get_clusters'])
P('P26', 'Networks have exactly the connections they are asked for',
  'For every kind of structure, size and shape of a network and every pair of its nodes, a connection exists exactly when the documented structure has it, the list of neighbors names the same connections once each, and after any sequence of connections set and removed every adjacency container holds exactly what the sequence leaves, weights included, and refuses indexes outside the network.',
  ['inputs', 'configurations', 'histories'], 'all structures, pairs of nodes and sequences of operations',
  W + 'rectangular grids, repeated connections, erased and zero weights and word borders of the bit matrix are not enumerated.',
  ['pyclustering/nnet/__init__.py', 'ccore/include/pyclustering/container/adjacency_connector.hpp', 'ccore/src/container/adjacency_bit_matrix.cpp', 'ccore/src/container/adjacency_matrix.cpp', 'ccore/src/container/adjacency_list.cpp', 'ccore/src/container/adjacency_weight_list.cpp'],
  [('structures', 'network._create_structure'), ('containers', 'adjacency_*::set_connection')], ['network.has_connection/get_neighbors', 'adjacency_collection'])
P('P27', 'Graph coloring gives adjacent vertices different colors',
  'For every undirected graph, DSATUR gives every vertex a color, adjacent vertices different ones, uses at most one color more than the largest degree and exactly two for bipartite graphs with an edge; color maps built from oscillator ensembles give every vertex the color of its ensemble; and the oscillator networks repel exactly the adjacent vertices.',
  ['inputs'], 'all graphs',
  W + 'a handful of fixed graphs is colored; the choice by saturation is not observed.',
  ['pyclustering/gcolor/dsatur.py', 'pyclustering/gcolor/sync.py', 'pyclustering/gcolor/hysteresis.py'],
  [('coloring', 'dsatur.process'), ('maps', 'syncgcolor_analyser.allocate_color_clusters')], ['dsatur.get_colors', 'syncgcolor_analyser.allocate_map_coloring'])
P('P28', 'Threads never change what the core computes',
  'For every amount of processors, every amount of threads and every order and moment in which the tasks of a parallel loop run, the loop visits every index of its range exactly once, and the algorithms of the core that use such loops (k-means, k-medians, k-medoids, fuzzy c-means, sync networks) return the same result as on a single thread.',
  ['schedules', 'inputs', 'configurations'], 'all schedules of the tasks and amounts of threads together with all data',
  'The tests run the loops on the processor amount of the machine and in whatever order it chooses; small machines, deferred tasks and small ranges are not tried.',
  ['ccore/include/pyclustering/parallel/parallel.hpp', 'ccore/src/cluster/kmeans.cpp', 'ccore/src/cluster/kmedoids.cpp', 'ccore/src/cluster/fcm.cpp'],
  [('partition of the range', 'parallel_for, parallel_for_each'), ('users', 'kmeans::update_clusters and others')], ['parallel_for/parallel_for_each', 'results of the algorithms through the wrappers'])
P('P29', 'Oscillatory sync networks follow their phase equations',
  'For every amount of oscillators, structure, phases, frequencies and coupling, every step of sync, syncpr and syncnet (Python and C++) moves each phase by the documented equation over exactly its neighbors and keeps it in [0, 2*pi); static simulation performs exactly the requested steps; reported ensembles are a partition in which an oscillator joins one that holds an oscillator within the tolerance; correlation matrices, order parameters and Hebbian weights follow their formulas; and syncnet connects exactly the points within its radius. Hysteresis ensembles group oscillators of close recent amplitudes.',
  ['inputs', 'configurations', 'histories'], 'all phases, structures, couplings, initial states and patterns',
  'The tests only observe that networks finally synchronize on fixed samples; single steps, wrapping phases, weights and the amount of steps are not compared with anything.',
  ['pyclustering/nnet/sync.py', 'pyclustering/nnet/syncpr.py', 'pyclustering/cluster/syncnet.py', 'pyclustering/nnet/hysteresis.py', 'ccore/src/nnet/sync.cpp', 'ccore/src/nnet/syncpr.cpp', 'ccore/src/cluster/syncnet.cpp'],
  [('equation', '_phase_calculation; sync_network::phase_kuramoto'), ('ensembles', 'allocate_sync_ensembles'), ('connections', 'syncnet._create_connections; syncnet::create_connections')], ['simulate/simulate_static output', 'allocate_sync_ensembles', 'allocate_correlation_matrix', 'calculate_order_parameter'])
P('P30', 'PCNN steps follow the model of the pulse coupled network',
  'For every structure, parameters, stimulus and initial state, every step of the pulse coupled network (Python and C++, with and without fast linking) computes feeding, linking, internal activity, threshold and output by the documented equations over exactly the neighbors; simulation always ends and collects the requested steps; ensembles of synchronous, of spiking and time signals are exactly those of the collected outputs; and stimuli of a wrong length are refused.',
  ['inputs', 'configurations', 'histories'], 'all stimuli, structures, parameters and initial states over several steps',
  'The tests check that some output appears for fixed stimuli; states are not compared with the equations and alternating outputs are never produced.',
  ['pyclustering/nnet/pcnn.py', 'ccore/src/nnet/pcnn.cpp', 'pyclustering/core/pcnn_wrapper.py', 'ccore/src/interface/pcnn_interface.cpp'],
  [('step', 'pcnn_network._calculate_states; pcnn::calculate_states'), ('fast linking', 'pcnn::fast_linking')], ['pcnn_network.simulate', 'pcnn_dynamic'])
P('P31', 'Solvers of differential equations have the order they claim',
  'For every system, initial state, step and amount of steps, Runge-Kutta 4 of the core agrees with the exact solution up to the fourth power of the step, collects exactly the requested amount of equidistant states, and returns the same last state whether or not states are collected; Runge-Kutta-Fehlberg ends exactly at the end of the interval, its times increase, it is exact where its formula is, and its error stays within what the tolerance allows.',
  ['inputs', 'configurations'], 'all coefficients of a family of non-autonomous linear systems, steps and tolerances',
  'The tests integrate two fixed equations and accept a wide deviation; wrong coefficients of higher order stay unnoticed.',
  ['ccore/include/pyclustering/differential/runge_kutta_4.hpp', 'ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp'],
  [('order 4', 'runge_kutta_4'), ('adaptive step', 'runge_kutta_fehlberg_45')], ['runge_kutta_4', 'runge_kutta_fehlberg_45'])
P('P32', 'EM iterations follow the E- and M-step formulas',
  'For every data set, amount of clusters, initial means and covariances, EMA computes densities of the normal distribution, responsibilities that are the normalized products of densities and weights and sum to one for every object, weights, means and covariances that are the weighted averages by them, puts every object into the cluster of the highest responsibility, drops empty clusters together with all that belongs to them, and stops when the likelihood changes by no more than the tolerance or after the requested iterations. The random initializer returns distinct objects and valid covariances.',
  ['inputs', 'configurations', 'schedules'], 'all data, densities, means, covariances and random choices',
  'The tests check sizes of clusters on well separated samples; responsibilities, covariances and dropped clusters are not compared with anything.',
  ['pyclustering/cluster/ema.py'],
  [('E-step', 'ema.__expectation_step'), ('M-step', 'ema.__maximization_step, __update_covariance'), ('clusters', 'ema.__extract_clusters')], ['ema.get_clusters/get_centers/get_covariances/get_probabilities', 'ema_initializer.initialize'])
P('P33', 'Genetic clustering returns the best chromosome of all generations',
  'For every data set, amount of clusters, population and random choices, genetic_algorithm returns the best chromosome met in any generation together with its fitness, which is the sum of Manhattan distances of the objects to the means of their clusters. The best fitness never worsens from one generation to the next, the clusters are the groups of objects with equal genes, without mutation every gene comes from the same position of the previous population, and no more than the requested amount of genes is mutated. Selection draws chromosomes by probabilities inverse to their fitness.',
  ['inputs', 'configurations', 'schedules'], 'all data, populations and random choices',
  'The tests check only that the clusters hold all objects and that sizes are as expected on separated samples.',
  ['pyclustering/cluster/ga.py', 'pyclustering/cluster/ga_maths.py'],
  [('generations', 'genetic_algorithm.process, __select, __crossover, __mutation'), ('fitness', 'genetic_algorithm.__calc_fitness_function, __get_best_chromosome'), ('helpers', 'ga_math.get_clusters_representation, get_centres, calc_probability_vector, get_uniform')], ['genetic_algorithm.process/get_clusters', 'ga_observer'])
P('P34', 'Invalid arguments are refused and every valid one is processed',
  'For every clustering algorithm and initializer, an argument outside its documented bounds (and empty data) is refused with ValueError by the constructor, and every value inside the bounds, the smallest ones and data of one point or of equal points included, is accepted and processed without a failure by Python and by the C++ core; the result names only existing objects, each at most once.',
  ['inputs', 'configurations'], 'all values of every documented argument, data of few points, both implementations',
  'The tests refuse a handful of invalid values and process usual ones; smallest permitted values and tiny data are combined with few algorithms only.',
  ['pyclustering/cluster/clarans.py', 'pyclustering/cluster/rock.py', 'pyclustering/cluster/cure.py', 'pyclustering/cluster/dbscan.py', 'pyclustering/cluster/optics.py', 'pyclustering/cluster/xmeans.py', 'pyclustering/cluster/gmeans.py', 'pyclustering/cluster/elbow.py', 'pyclustering/cluster/silhouette.py', 'pyclustering/cluster/center_initializer.py'],
  [('verification', '__verify_arguments of the algorithms'), ('processing', 'process and the interface functions of the core')], ['constructors', 'process/get_clusters'])
P('P35', 'The same random state gives the same result',
  'For every algorithm that takes a random state (center initializers, X-Means, G-Means, elbow, silhouette K search, SOM, SOM-SC, genetic clustering), two runs with the same data, arguments and random state (zero included) return the same result by Python and by the C++ core, whatever the generators were used for before; without a random state no generator is seeded with a fixed value.',
  ['inputs', 'schedules', 'configurations'], 'all sequences a seeded generator may return, random states, states of the generators before',
  'Tests that set a random state only compare sizes of clusters; none repeats a run to compare, and the value 0 is not tried.',
  ['pyclustering/cluster/center_initializer.py', 'pyclustering/cluster/xmeans.py', 'pyclustering/cluster/gmeans.py', 'pyclustering/cluster/elbow.py', 'pyclustering/cluster/silhouette.py', 'pyclustering/cluster/ga.py', 'pyclustering/nnet/som.py', 'pyclustering/core/elbow_wrapper.py', 'pyclustering/core/gmeans_wrapper.py', 'ccore/src/cluster/kmeans_plus_plus.cpp', 'ccore/src/cluster/random_center_initializer.cpp'],
  [('seeding', 'random.seed / numpy.random.seed in constructors; m_generator.seed in initialize'), ('passing the state', 'wrappers of pyclustering.core and interface functions of the core')], ['results of process'])
P('P36', 'Python and the C++ core return the same results',
  'For every data set and arguments for which no tie has to be broken, the Python implementation and the C++ core (through wrapper, packages and interface function) of K-Means, K-Medians, K-Medoids, PAM BUILD, Fuzzy C-Means, DBSCAN, OPTICS, agglomerative clustering, ROCK, CURE, CLIQUE, Silhouette and SOM-SC return the same clusters, noise, centers, medoids, orderings, cells and scores, for every metric both support.',
  ['inputs', 'configurations'], 'all coordinates or distances of few objects, metrics, forms of data and arguments that differ from the default ones',
  'The tests run both implementations on the same samples and compare each with expected sizes; the results are not compared with each other.',
  ['pyclustering/core/kmeans_wrapper.py', 'pyclustering/core/pyclustering_package.py', 'pyclustering/core/metric_wrapper.py', 'pyclustering/cluster/kmeans.py', 'pyclustering/cluster/clique.py', 'pyclustering/cluster/cure.py', 'ccore/src/cluster/kmeans.cpp', 'ccore/src/cluster/clique.cpp', 'ccore/src/cluster/cure.cpp', 'ccore/src/interface/pyclustering_package.cpp'],
  [('both implementations', '__process_by_python / __process_by_ccore'), ('conversion', 'package_builder, package_extractor, wrappers')], ['get_clusters/get_centers/get_medoids/get_noise/get_ordering/get_cells/get_score'])
P('P37', 'Sampling is unbiased and helper functions follow their definitions',
  'For every data set, size of a sample and random values, reservoir sampling R and X return different elements of the data, keep every element by the probabilities of the algorithms (so that each is in the sample with probability n/N), end, and leave the data unchanged. Distances between clusters, average distance to the closest neighbours, corners and dimension information, sums, operations on lists, search of the leftmost element, gray values, borders of images and amounts of oscillations are those of their definitions.',
  ['inputs', 'schedules'], 'all values of the random generators, coordinates and numbers for few elements',
  'The tests of sampling check that elements are from the data and differ; distributions and most helper functions are not checked or for one sample each.',
  ['pyclustering/utils/sampling.py', 'pyclustering/utils/__init__.py', 'pyclustering/utils/dimension.py'],
  [('sampling', 'reservoir_r, reservoir_x'), ('distances between clusters', 'average_inter_cluster_distance, average_intra_cluster_distance, variance_increase_distance'), ('data', 'data_corners, average_neighbor_distance, dimension_info'), ('images and oscillations', 'gray_pattern_borders, extract_number_oscillations')], ['returned values'])
P('P38', 'Hierarchical sync, SYNC-SOM and segmentation group what the network says',
  'hsyncnet (Python and C++) connects, in every round, exactly the objects within the current radius, which is the average distance to the initial amount of neighbors plus the documented increase per round (growing by the percent once there are no more neighbors), ends at the first round with no more ensembles than the required clusters for every order of synchronization, and returns the states of its rounds. SYNC-SOM couples exactly the winning neurons that hold objects within the radius and its clusters are the objects of synchronous neurons. Image segmentation connects pixels by color, searches every color segment that is not noise for objects by the columns and rows of its pixels, and returns segments as indexes of pixels without loss.',
  ['inputs', 'histories', 'configurations'], 'all objects, radii, outcomes of the simulations, thresholds of noise and sizes of images',
  'The tests check that clusters of expected sizes appear on separated samples; radii of rounds, the mapping of layers and low orders of synchronization are not checked.',
  ['pyclustering/cluster/hsyncnet.py', 'ccore/src/cluster/hsyncnet.cpp', 'ccore/src/cluster/syncnet.cpp', 'pyclustering/cluster/syncsom.py', 'pyclustering/nnet/syncsegm.py'],
  [('rounds', 'hsyncnet.process, __calculate_radius; hsyncnet::process, calculate_radius'), ('two layers', 'syncsom.__create_sync_layer, get_clusters'), ('segmentation', 'syncsegm.__analyse_objects, syncsegm_analyser.allocate_objects')], ['hsyncnet.process', 'syncsom.get_clusters/get_som_clusters', 'syncsegm_analyser.allocate_colors/allocate_objects'])
P('P39', 'Chaotic, hysteresis, LEGION and HHN networks follow their equations',
  'For every amount of neurons, structure, parameters, stimulus and initial state, every step of the chaotic network sets each output to the average of 1 - 2y^2 over exactly its neighbours (all neurons or the Delaunay triangulation of the stimulus) weighted by the closeness of their stimulus, and every step of the Python hysteresis, LEGION and Hodgkin-Huxley networks integrates the documented equations over the whole step; outputs switch, inhibition and coupling act and pulses are remembered exactly when the states say so, and the collected dynamic holds exactly the requested steps. Ensembles of chaotic networks are neurons with equal patterns of signs, ensembles of oscillations are oscillators whose last finished oscillations coincide within the tolerance.',
  ['inputs', 'histories', 'configurations'], 'all initial states, stimuli, noise, parameters and structures over a few steps',
  'The tests check sizes of outputs and ensembles of long simulations; single steps are never compared with the equations.',
  ['pyclustering/nnet/cnn.py', 'pyclustering/nnet/hysteresis.py', 'pyclustering/nnet/legion.py', 'pyclustering/nnet/hhn.py', 'pyclustering/utils/__init__.py'],
  [('steps', 'cnn_network.__neuron_evolution, hysteresis_network._neuron_states, legion_network._legion_state, hhn_network.hnn_state'), ('ensembles', 'cnn_dynamic.allocate_sync_ensembles, utils.allocate_sync_ensembles')], ['simulate/simulate_static', 'allocate_sync_ensembles'])
