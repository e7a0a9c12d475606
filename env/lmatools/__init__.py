"""Environment model of the parts of lmatools that glmtools calls.

lmatools is not installed in this sandbox.  This package reproduces the public
contract glmtools relies on (routing to half-open time frames, histogramming of
centroids, grid bookkeeping, fixed grid coordinate systems) as plainly as
possible.  It is part of the trusted base of the checks; see DESIGN.md.
"""
