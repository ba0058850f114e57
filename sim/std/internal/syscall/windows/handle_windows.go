package windows

func Handle() int { return 1 }
