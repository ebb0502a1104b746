P('P01', 'A dataset\'s size, dimension and class counts always describe its points',
  'After any history of insertions (shared, by value or from another dataset), label updates, recounting and clearing, a classification dataset holds exactly the points put into it in order, all of one dimension; its class list holds each label in use exactly once in order of first appearance (a class whose last point is relabelled disappears), and the class distribution gives, class by class, the number of points with that label. '
  'A point whose dimension differs from the dataset\'s, or a source or target position out of range, is rejected and leaves the dataset unchanged. '
  'A point inserted by value is stored as an independent copy, and inserted points receive identifiers 1,2,3,... in insertion order unless the caller asks to keep its own.',
  'all datasets and all sequences of insert/update/clear operations, all points, labels (integer valued) and positions',
  'tests insert a few fixed points; the bookkeeping must stay consistent for every history, including emptied classes, rejected points and the first insertion',
  [C + 'Data.hpp', C + 'Point.hpp'],
  [('insertPoint overloads, updatePointValue, computeClassesDistribution, clear, constructors', C + 'Data.hpp'), ('dataset representation invariant as pre/postcondition of every operation', 'specs/data.py, specs/P01.py')],
  'Every operation is proved to preserve the representation invariant and to have the stated effect.',
  ['size(), dim(), points(), classes(), classesDistribution(), return values'], over=('inputs', 'histories'),
  state=[('class_distribution', 'count per listed class', C + 'Data.hpp'), ('m_points/m_size/m_dim', 'points, their number and dimension', C + 'Data.hpp')])
P('P06', 'Point arithmetic is componentwise and leaves its operands unchanged',
  'Every arithmetic operator between points, and between a point and a scalar on either side, yields the point whose k-th component is that operation on the k-th components, for every size and any nesting of expressions, and compound assignment updates the left operand to exactly that result. '
  'Reductions, inner product, norm, comparison, range fill, unary maps, copies and assignments return the value given by their componentwise definition, an assigned or copied point having exactly the size, components, label and identifier of its source. '
  'Operands of non-assigning operations are unchanged and a copy never shares storage with its source.',
  'all point sizes, component values, scalars and expression shapes',
  'tests use a handful of fixed small points; the guarantee is for every size including 0, every aliasing of operands and nested lazily evaluated expressions',
  [C + 'Point.hpp'], [('expression templates PointExpression and Point operators', C + 'Point.hpp')],
  'All 48 operations of the point algebra are under contract.', ['values of the resulting points'])
P('P02', 'Removing points by identifier removes exactly those points',
  'Removing an identifier from a classification dataset removes the point carrying it and nothing else: the other points keep their values and relative order, the size and the removed point\'s class count drop by one and all other class counts and the class list stay the same; an absent identifier is reported and changes nothing. '
  'Removing a sorted list of identifiers removes exactly the points carrying one of them and reports for each identifier whether it was absent. '
  'The last remaining point is never removed.',
  'all datasets (in any point order), all identifiers, present or absent, and all sorted lists of identifiers',
  'the tests remove random points from one file and only look at the totals; which points remain, their order, the counts and the absent-identifier path are for every dataset',
  [C + 'Data.hpp'], [('removePoint, removePoints', C + 'Data.hpp')],
  'Single removal is proved completely; for multiple removal everything but the per-class counts is proved (those are checked by the bounded run only).', ['points(), size(), classesDistribution(), getIndex(), return values'])
P('P03', 'Copies are complete and independent; joins append copies and merge classes',
  'Copying a dataset (copy constructor, copy(), copy(source) into any dataset) yields equal points in the same order with the same labels, identifiers and weights, and the same classes, counts, index and feature names, all points being new objects so that later changes on one side never show on the other. '
  'copyZero yields an empty dataset with the feature names of the source. classesCopy yields exactly copies of the source points whose label is requested, in order, with the requested class list and true counts. '
  'Joining a dataset of the same dimension keeps the own points in place, appends copies of the others in order, lists every class of both sets once (own classes first) with true counts, and leaves the joined set unchanged.',
  'all source and target datasets, including empty ones and targets with previous content, and all requested class lists',
  'tests copy or join one file and compare totals; completeness and independence must hold for every dataset and every later change',
  [C + 'Data.hpp'], [('copy, copy constructor, copyZero, classesCopy, join', C + 'Data.hpp')],
  'All five operations are proved without restriction on sizes; class names (strings) are only checked by the bounded run.', ['points(), classes(), classesDistribution(), dim(), getIndex(), getFeaturesNames()'], over=('inputs', 'histories'))
P('P07', 'Every distance functor computes its published definition',
  'For two points of equal size within the domain of the definition, each distance functor returns the value of its published definition (Cha; Prasath et al.) for every size, and leaves both points unchanged. '
  'The distances that are metrics or semi-metrics (among them Euclidean, Manhattan, Chebyshev, Canberra, Lorentzian, Hellinger, Hassanat) are symmetric, never negative, zero between equal points and, where the definition separates points, positive between different ones. '
  'A distance matrix holds at each pair of points exactly the metric\'s value and is symmetric with a zero diagonal.',
  'all pairs of points of equal size within the domain of each distance',
  'the tests compare single pairs for a few functors; several functors were constant 0 through integer division without any test noticing',
  [C + 'DistanceMetric.hpp', C + 'DistanceMatrix.hpp'], [('distance functors', C + 'DistanceMetric.hpp'), ('definition of each distance', 'specs/P07.py')],
  'All functors but the ambiguous Chord are proved against their definition; the distance matrix (built by a thread pool) is only checked by the bounded run.', ['value returned by operator()'])
P('P08', 'Kernel values, kernel matrices and dual norms follow their definitions',
  'For points of equal size the inner product, polynomial and Gaussian kernels return <a,b>, <a,b>^p (<a,b> itself for p <= 1) and exp(-p*|a-b|^2), and the variant without a component returns exactly the kernel of the points with that component left out; a custom kernel returns what its function returns. '
  'The kernel matrix holds k(i,j) for every pair of points, is size x size and symmetric also when the kernel object was used for other data before; the H matrices are the kernel matrices multiplied by both labels. '
  'The dual norm is the root of the sum over all i,j of alpha_i y_i alpha_j y_j K(i,j) (over the points with positive weight for the feature space norm). The points are left unchanged.',
  'all points, sizes, kernel types and parameters, datasets, labels and weights, and all histories of reusing one kernel object',
  'the tests compare one kernel matrix of one dataset; the variants without a component, reuse for other data and the norms are never compared with their definition',
  [C + 'Kernel.hpp'], [('kernel functions, matrices, norms', C + 'Kernel.hpp')],
  'Kernel values (all types, with and without a component) are proved; matrices and norms (nested loops over nested vectors) are only checked by the bounded run.', ['returned values, getKernelMatrix(), H matrices'], over=('inputs', 'histories'))
P('P09', 'Descriptive statistics return the value of their definition',
  'Mean, variance, standard deviation and covariance of points, mean and (sample) standard deviation of a feature, total variance (mean squared distance of the points to their centre, ignoring the feature of the given name), radius and distance of the class centres (with or without excluded features) return exactly the value of their definition for every non-empty dataset, and leave their arguments unchanged. '
  'The standard deviation of a feature of a single point is zero.',
  'all non-empty points and datasets, all features and exclusion lists, any order of feature names',
  'tests compare a few constants on one dataset; the definitions must hold for every size and every excluded feature',
  [C + 'Statistics.hpp'], [('statistics of points and datasets', C + 'Statistics.hpp')],
  'Point statistics, feature mean and deviation and total variance are proved; radius and centre distances are only checked by the bounded run.', ['returned values'])
P('P18', 'Splits partition the dataset; cross-validation and measures follow definitions',
  'Splitting a dataset into parts, into a training and a test set, or into k folds puts every point in exactly one part (or one test fold; the training set of a fold being all points outside its test fold), as an equal copy with its label and identifier, and leaves the dataset unchanged; a stratified split keeps the class shares within one point per part. '
  'k-fold cross-validation evaluates each fold on a primal classifier trained on exactly the remaining points and its confusion counts and accuracy are those of the predictions. '
  'Accuracy is the share of the points predicted with their label; the confusion matrix counts true label (row) against predicted label (column); precision, recall, specificity, F-score and error of the reports are the value of their definition for those counts.',
  'all non-empty datasets, numbers of parts and folds up to the number of points, seeds, and all classifiers',
  'tests compare sizes of a split of one file and a few totals; partition and definitions must hold for every dataset, share and seed',
  ['subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp', C + 'Data.hpp'],
  [('kfoldsplit, partTrainTest, splitDataset, kkfold, kfold, accuracy, confusionMatrix, metricsReport, classificationReport', 'subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp'), ('splits of a dataset', C + 'Data.hpp')],
  'Accuracy (of a learner and of a confusion matrix), classification report and metrics report are proved for an arbitrary learner; the splits, the cells of the confusion matrix and cross-validation are only checked by the bounded run.', ['returned parts, reports and measures'])
P('P11', 'Linear and kernel classifiers decide by their decision function',
  'A primal classifier returns for a point w.x + b when the raw value is asked for and otherwise the side of the hyperplane, +1 when w.x + b >= 0 and -1 otherwise. '
  'A dual classifier does the same with the kernel expansion sum of alpha_k y_k K(x, x_k) over the points of its dataset, plus b; its weight vector is sum of alpha_k y_k x_k. '
  'Evaluating a dataset gives for each point, in order, the prediction for that point. None of these changes the dataset.',
  'all weights, biases, multipliers, labels, datasets, points of the dimension of the dataset, and any kernel',
  'tests only look at the accuracy reached after training on one file; the decision rule holds for every solution and point, including points on the hyperplane and one-vs-all\'s use of raw values',
  [CL + 'PrimalClassifier.hpp', CL + 'DualClassifier.hpp', C + 'Learner.hpp'],
  [('PrimalClassifier::evaluate', CL + 'PrimalClassifier.hpp'), ('DualClassifier::evaluate, getWeight', CL + 'DualClassifier.hpp'), ('batchEvaluate', C + 'Learner.hpp')],
  'Proved for all sizes; the kernel enters through its own contract (a side-effect-free function of the two points, its value being P08).', ['value returned by evaluate, batchEvaluate, getWeight'])
P('P12', 'Nearest neighbour predictors use exactly the k nearest points',
  'The k nearest neighbour classifier returns a class that is most frequent among k points of its dataset such that no other point is nearer to the evaluated point, whatever metric is used, and the regressor returns the mean of the values of such k points; with distances computed beforehand (full or diagonal matrix) the classifier answers as with the metric. '
  'Evaluation changes neither the dataset nor the point.',
  'all datasets, points, 1 <= k <= number of points, metrics, with any ties between distances or votes',
  'tests only look at an accuracy or an error on one file; the selection must hold for every dataset, order of the points, k and tie',
  [CL + 'KNNClassifier.hpp', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp'],
  [('KNNClassifier::evaluate', CL + 'KNNClassifier.hpp'), ('KNNRegressor::evaluate', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp')],
  'Proved for any side-effect-free metric; the paths with distances computed beforehand are only checked by the bounded run.', ['value returned by evaluate'])

P('P13', 'A perceptron that reports success separates its training points',
  'When training of a perceptron (primal or dual, with or without a fixed margin, or balanced) reports success, every training point is on the side of its label, with at least the margin asked for where there is one, and training succeeds on linearly separable data when no margin is asked for and time, iteration and update limits are not reached; it leaves the dataset given by the caller as it was. '
  'A trained primal perceptron returns w.x + b when the raw value is asked for and otherwise +1 when w.x + b is at least zero (the margin of the solution times its norm for the fixed margin perceptron) and -1 otherwise.',
  'all two-class datasets with labels +1 and -1, learning rates, margins and evaluated points',
  'tests only look at the accuracy on one separable file; the meaning of success holds for every dataset, inseparable ones included',
  [CL + 'Perceptron.hpp'],
  [('train and evaluate of the perceptrons', CL + 'Perceptron.hpp')],
  'The decisions are proved for all sizes; what success of a training means is only checked by the bounded run.', ['value returned by train and evaluate'])
P('P15', 'Multi-class decisions follow the raw values or votes of the base learners',
  'One against all trains one base learner per class on the whole dataset, the class labelled +1 and all others -1, and predicts a class whose learner returns the largest raw value. '
  'One against one trains one base learner per ordered pair of classes on the points of those two classes, the first labelled +1 and the second -1, gives a vote to the first class when the learner predicts +1 and to the second otherwise, and predicts a class with the most votes. '
  'Neither changes the dataset or the evaluated point.',
  'all datasets with at least two classes, all base learners, all points',
  'tests only look at the accuracy of one base learner on one file; the combination must be right for every number of classes and all values, ties and negative values included',
  [CL + 'OneVsAll.hpp', CL + 'OneVsOne.hpp'],
  [('OneVsAll::evaluate, train', CL + 'OneVsAll.hpp'), ('OneVsOne::evaluate, train', CL + 'OneVsOne.hpp')],
  'Evaluation is proved for any base learner (its evaluate enters through a contract: a function of learner, point and raw_value); the binary training problems are only checked by the bounded run.', ['value returned by evaluate, datasets handed to the base learners'])
P('P16', 'A voting ensemble predicts the class with the most (weighted) votes',
  'A voting classifier trains every learner on its dataset and, for learners that answer classes of the dataset, predicts a class listed in the dataset with the most votes: hard voting counts one vote per learner, soft voting the weight set for the learner. It changes neither the dataset nor the evaluated point.',
  'all numbers of learners and classes, all answers, all weights',
  'tests look at the accuracy of one ensemble on one file; the count must be right for every combination of answers and weights, ties included',
  ['subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp'],
  [('VotingClassifier::evaluate, train, setWeights, setVotingType', 'subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp')],
  'Evaluation is proved for any learners (contract as in P15); training and the setters are only checked by the bounded run.', ['value returned by evaluate, datasets handed to the learners'])
P('P17', 'k-means assigns points to nearest centres and centres are means',
  'A k-means clusterer evaluates a point to the position of a centre no other centre is nearer than. Assigning the points puts each point of the dataset into exactly one cluster, that of a nearest centre, and returns the sum of the squared distances to those centres; recomputing makes each centre the mean of the points of its cluster, the centre of an empty cluster staying where it is; neither step increases the cost. '
  'Trained centres lie among the points and the clusters listed afterwards are those of the nearest centres, however often they are asked for. The dataset of the caller stays as it was.',
  'all datasets whose identifiers are 1..n in order, numbers of clusters up to the number of points, both initialisations, all seeds',
  'tests look at the clusters of one file; nearest centre and mean must hold for every dataset, empty clusters, coinciding points and ties included',
  ['subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp'],
  [('KMeans::evaluate, assign_clusters, compute_centers, clusters, train', 'subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp')],
  'Evaluation is proved for all numbers of centres and any distance; assignment, centres, listing and training are only checked by the bounded run.', ['value returned by evaluate and assign_clusters, centers(), clusters()'])
P('P19', 'Linear regression predicts w.x + b and is trained by the delta rule',
  'A primal regressor returns the weights times the features plus the bias for every point of the dimension of the weights. The mean squared error is the mean of the squared differences and leaves its arguments unchanged. '
  'Training the least mean squares regressor yields the weights and bias of the delta rule started at zero, with the learning rate applied to weights and bias, until the cost settles or the iterations are used up; it leaves the dataset of the caller as it was.',
  'all weights, points, value vectors of equal positive length; datasets, rates and numbers of iterations',
  'tests look at one error value on one file; the linear form, the error and the update must be right for every size and rate',
  ['subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/PrimalRegressor.hpp', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/Metrics.hpp', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp'],
  [('PrimalRegressor::evaluate', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/PrimalRegressor.hpp'), ('MSE', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/Metrics.hpp'), ('LMSPrimal::train', 'subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp')],
  'Prediction and error measure are proved for all sizes; training is only checked by the bounded run.', ['value returned by evaluate and MSE, weights and bias after training'])
