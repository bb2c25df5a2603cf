"""Representation choices of the translation (recorded in DESIGN.md)."""
# records stored by value in containers of themselves
BOXED = {"wer_alignment"}
# pointer members that point at an element of a container reachable from *this
EPTR = {("AlignmentTraversor", "currentSubclass"): ("this", ["alignmentTraversor_root", "wer_alignment_label_alignments"], "wer_alignment")}
# pointer locals that point at an element of a container: (function key, variable) -> same form
EPTR_LOCAL = {}
# shared_ptr targets represented as references into an immutable heap
LINKED = {"ShortlistEntry"}
PREFIX = {"StdArc": "arc_"}
DROP_FIELDS = {"logger", "logger_"}
