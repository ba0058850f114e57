package strconv

func Itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return Itoa(i/10) + Itoa(i%10)
}
