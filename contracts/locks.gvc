# C19: the lock discipline. Every field of a struct that has a mutex is guarded
# by it, except the immutable ones; types that wrap a core use the core's lock.
immutable moment.Core.window moment.Core.decay
immutable joint.Core.tuples joint.Core.window joint.Core.decay
immutable minmax.Max.window minmax.Min.window
immutable quantile.Quantile.window quantile.Quantile.interpolation
immutable quantile.HeapMedian.window
immutable sample.Reservoir.Size
immutable aggregate.SimpleAggregateMetric.metrics aggregate.SimpleJointAggregateMetric.metrics

guarded joint.Autocov core.mux
guarded joint.Autocorr core.mux
guarded joint.Cov core.mux
guarded joint.Corr core.mux
guarded joint.EWMCov core.mux
guarded joint.EWMCorr core.mux
guarded moment.Mean core.mux
guarded moment.Moment core.mux
guarded moment.Std variance.core.mux
guarded moment.Skewness core.mux
guarded moment.Kurtosis core.mux
guarded moment.EWMA core.mux
guarded moment.EWMMoment core.mux
guarded moment.EWMStd variance.core.mux
guarded quantile.IQR quantile.mux
guarded quantile.Median quantile.mux
immutable joint.Autocov.lag joint.Autocov.cov joint.Autocov.core
immutable joint.Autocorr.lag joint.Autocorr.corr joint.Autocorr.core
immutable joint.Cov.window joint.Cov.core joint.Corr.window joint.Corr.core
immutable joint.EWMCov.decay joint.EWMCov.core joint.EWMCorr.decay joint.EWMCorr.core
immutable moment.Mean.window moment.Mean.core moment.Moment.k moment.Moment.window moment.Moment.core
immutable moment.Std.variance moment.EWMStd.variance
immutable moment.Skewness.variance moment.Skewness.moment3 moment.Skewness.config moment.Skewness.core
immutable moment.Kurtosis.variance moment.Kurtosis.moment4 moment.Kurtosis.config moment.Kurtosis.core
immutable moment.EWMA.decay moment.EWMA.core moment.EWMMoment.k moment.EWMMoment.decay moment.EWMMoment.core
immutable quantile.IQR.quantile quantile.Median.quantile

# established by SetCore
lockinv joint.Autocov self.cov != nil && self.cov.core == self.core
lockinv joint.Autocorr self.corr != nil && self.corr.core == self.core
lockinv moment.Skewness self.variance != nil && self.moment3 != nil && self.variance.core == self.core && self.moment3.core == self.core
lockinv moment.Kurtosis self.variance != nil && self.moment4 != nil && self.variance.core == self.core && self.moment4.core == self.core
lockinv moment.Std self.variance != nil
lockinv moment.EWMStd self.variance != nil
lockinv quantile.IQR self.quantile != nil
lockinv quantile.Median self.quantile != nil

lockentry (*moment.Core).UnsafePush W
lockentry (*moment.Core).UnsafeClear W
lockentry (*moment.Core).UnsafeCount R
lockentry (*moment.Core).UnsafeMean R
lockentry (*moment.Core).UnsafeSum R
lockentry (*joint.Core).UnsafePush W
lockentry (*joint.Core).UnsafeClear W
lockentry (*joint.Core).UnsafeCount R
lockentry (*joint.Core).UnsafeMean R
lockentry (*joint.Core).UnsafeSum R

property C19 mode=lock auto=minmax,moment,joint,quantile,sample,aggregate skip=Lock,Unlock,RLock,RUnlock,SetCore assume=sync.Mutex,_RWMutex_and_WaitGroup_behave_as_documented|the_read_methods_of_queue.RingBuffer_and_deque.Deque_only_read|comparison_functions_given_to_the_heap_have_no_side_effects|SetCore_is_called_before_concurrent_use_(it_is_part_of_initialisation)|wrapped_metrics_synchronise_themselves
