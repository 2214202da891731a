"""fbsa -- a value-flow-graph static analyser for the fbs code base (stdlib only)."""
