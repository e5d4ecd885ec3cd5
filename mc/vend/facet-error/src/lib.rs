//! Stand-in for facet-error: nothing of it is used at run time.
