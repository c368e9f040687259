package e3

func init() {
	register(&Property{
		ID:     "C05",
		Rule:   "every single failing file system operation (EIO, EACCES, ENOSPC, ENOTDIR, short write) of a call through each entry point x entry state {missing, equal, different} x Update option {unset, true, false} x CI x UPDATE_SNAPS {unset, true, clean}: no file changes and no pass where the mode table forbids it",
		Assume: []string{"a fault makes one operation fail; what the failing operation leaves behind is what the real operation would (nothing, or half of a write)"},
		Enum:   faults,
	})
}
