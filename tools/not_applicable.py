NA = {
 'P40': 'Equality of an analytic gradient with the derivative of the returned value is a numerical identity over real inputs; no sound static argument over the floating-point kernels is in reach. Its structural preconditions (weights, holdfast slots, availability, buffers, thread races) are claimed separately.',
 'P41': 'Range and summation of floating-point probabilities are runtime quantities (dependent on data values and rounding); a static rule could only restate the formula.',
 'P42': 'Whether an optimiser stopped at a local maximum depends on run-time numerical behaviour of the objective and of scipy; not decidable from source.',
 'P43': 'Agreement of two independently written numerical engines quantifies over run-time floating-point values; it needs execution or symbolic equivalence, which is another family.',
 'P44': 'Value-for-value round trips go through third-party file formats (feather, hdf5, csv, zarr) whose dtype and encoding behaviour is outside the analysed source.',
}
