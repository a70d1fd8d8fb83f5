package info

func MemPercent() (string, error)           { return "1.00", nil }
func MemUsed() (uint64, error)              { return 1 << 20, nil }
func MemTotal() (uint64, error)             { return 1 << 30, nil }
func MemFree() (uint64, error)              { return 1 << 29, nil }
func DiskPercent() (string, error)          { return "1.00", nil }
func DiskUsed() (uint64, error)             { return 1 << 20, nil }
func DiskTotal() (uint64, error)            { return 1 << 30, nil }
func DiskFree() (uint64, error)             { return 1 << 29, nil }
func CPUInfo(args ...int) (string, error)   { return "cpu", nil }
func CPUPercent() ([]float64, error)        { return []float64{1}, nil }
func Uptime() (uint64, error)               { return 1, nil }
func PlatformInfo() (string, string, string, error) { return "linux", "debian", "1", nil }
func Platform() (string, error)             { return "linux", nil }
func KernelVer() (string, error)            { return "1", nil }
