package sfmt

func Print(a ...any) (int, error)            { return 0, nil }
func Println(a ...any) (int, error)          { return 0, nil }
func Printf(f string, a ...any) (int, error) { return 0, nil }
