"""fix commits of /repo -> the fixed list of known_findings.json (by commit subject; the hash is looked up)"""
FIXES = [
 ('C10', 'permute() checks', 'a permutation vector with an out-of-range or repeated entry left the container half permuted before it was refused (also C01, C02)'),
 ('C02', 'a refused batch leaves', 'a batch refused half-way (group mismatch, error term present) left part of itself merged'),
 ('C03', 'clearing the merged', 'clear() kept saved values, a later restore wrote to variables no longer in the problem'),
 ('C02', 'check a batch index', 'an out-of-range batch index formed an iterator beyond the end before it was refused'),
 ('C05', 'restore the marginalization', 'the marginalization index of a rejected batch stayed in the linear solver'),
 ('C05', 're-evaluate the errors', 'restoring the linear solver after a rejection kept the rejected errors in the exposed system'),
 ('C05', 'a batch that cannot be processed', 'a batch whose processing failed with an error stayed in the problem'),
 ('C06', 'removing the last batch', 'removing the last batch failed with an error and left stale statistics'),
 ('C12', 'Grid refuses negative', 'negative indices of a grid accessed memory before its cells'),
 ('C12', 'Grid points just below', 'points a rounding error below the maximum got an index beyond the last cell (also C13)'),
 ('C13', 'histogram statistics', 'the statistics of univariate and multivariate histograms did not compile when used'),
 ('C12', 'centre of a cell of an integer', 'the centre of a cell of an integer grid with negative coordinates was outside the cell'),
 ('C14', 'a multivariate normal refuses', 'covariances that are not positive definite were accepted, and a refused one left the distribution half changed (also C19)'),
 ('C16', 'mean and median of a uniform', 'mean and median of a uniform distribution were half its range instead of its middle'),
 ('C16', 'covariance of a multivariate uniform', 'the covariance of a multivariate uniform distribution was wrong'),
 ('C15', 'KL divergence between gamma', 'the Kullback-Leibler divergence between gamma distributions was wrong'),
 ('C15', 'log-density of a gamma', 'the log-density below the support was NaN or finite'),
 ('C18', 'integer samplers', 'the integer uniform, normal and categorical samplers did not follow their distributions (also C16)'),
 ('C18', 'Poisson samples', 'Poisson samples of means above 745 did not terminate or were wrong'),
 ('C20', 'inverting a transformation', 'inverting a transformation twice, or one given by its matrix, used stale components'),
 ('C19', 'size_t and ssize_t scalar', 'the multivariate maximum-likelihood estimator could not be instantiated'),
 ('C14', 'a univariate normal refuses', 'a NaN variance was accepted'),
 ('C21', 'timespec of a timestamp', 'the nanoseconds of a timestamp before the epoch were negative'),
 ('C21', 'date of a fractional', 'the date of a fractional time before the epoch was that of the next second'),
 ('C23', 'setting the covariance of a laser', 'setCovariance of a laser-rangefinder error term left the weight of the term unchanged'),
 ('C24', 'a sine wave path has', 'the inputs of a sine wave path were one fewer than its steps'),
 ('C25', 'setting the covariance of a car', 'setCovariance of a car error term left the weight of the term unchanged'),
 ('C26', 'setting the covariance of a time-delay', 'setCovariance of a time-delay error term left the weight of the term unchanged'),
 ('C25', 'derivative of the front wheel error when driving backwards (car)', 'the derivative of a front wheel error had the wrong sign when driving backwards'),
 ('C26', 'derivative of the front wheel error when driving backwards (time', 'the derivative of a front wheel error had the wrong sign when driving backwards'),
 ('C25', 'derivative of the steering error', 'the derivative of a steering error at a wheel moving sideways was NaN'),
 ('C28', 'the DMI time delay has its own', 'the bounds of the DMI time delay were read from the entry of another sensor'),
 ('C28', 'the default spline order of the car cal', 'a default spline order was copied from itself before it was set'),
 ('C29', 'the default spline order of the time-delay cal', 'a default spline order was copied from itself before it was set'),
 ('C30', 'the default spline order of the egomotion cal', 'a default spline order was copied from itself before it was set'),
 ('C31', 'the rear wheels of the car calibrator', 'the error terms of the rear wheels used the variances of the front wheels'),
 ('C31', 'predicting with less than two poses in the car', 'predicting without poses read beyond the ends of empty measurements'),
 ('C31', 'the car calibrator prints', 'the observability shown by the car calibrator belonged to other variables'),
 ('C32', 'the time-delay calibrator predicts', 'predicted wheel speeds followed another model than the error terms'),
 ('C32', 'predicting with less than two poses in the time-delay', 'predicting without poses read beyond the ends of empty measurements'),
 ('C32', 'the time-delay calibrator prints', 'the observability shown by the time-delay calibrator belonged to other variables'),
 ('C33', 'the egomotion calibrator does nothing without', 'a batch without measurements of the reference sensor read beyond their ends'),
 ('C33', 'predicting does not move the start', 'predicting in the middle of a batch moved the start of the next one'),
 ('C33', 'the egomotion calibrator prints', 'the observability shown by the egomotion calibrator belonged to other variables'),
 ('C35', 'the default spline order of the egomotion traj', 'a default spline order was copied from itself before it was set'),
 ('C35', 'the phases of a combined egomotion', 'every phase of a combined simulation started at the origin again'),
 ('C37', 'write the camera calibration without', 'writing a camera calibration before any batch was accepted read empty standard deviations'),
 ('C37', 'keep the camera observations in the order', 'accepted observations were kept in another order than the estimated poses'),
 ('C38', 'average the shown reprojection error', 'the average error shown counted corners that have none'),
 ('C23', 'the heading error of the laser-rangefinder motion', 'the heading error of the motion model jumped by full turns when the heading passed half a turn'),
 ('C39', 'the incremental laser-rangefinder program tells', 'the number of batches told missed the last, shorter one'),
 ('C42', 'the camera configuration is well-formed', 'the configuration that comes with the camera example could not be parsed'),
 ('C42', 'the camera calibrator does not process a batch without images', 'a recording ending on a full batch made the calibration program fail and lose its results'),
 ('C42', 'the camera validation program saves an image only where a target was found', 'an image without a target was saved empty, or the one before was saved again'),
 ('C43', 'the position covariance of the Applanix poses', 'the accuracies of north and east were exchanged, those of poses are in the frame of the poses'),
 ('C43', 'the velocity covariance of the Applanix measurements', 'velocities were turned into the body frame without their covariance'),
 ('C43', 'the car calibration program writes the deviations', 'the deviations read past the end of the variances and were those of other variables'),
]
KNOWN = []
