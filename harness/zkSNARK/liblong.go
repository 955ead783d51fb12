package zkSNARK

import (
	"math/big"
	"strings"
)

// c23Long: n gates or inputs; the values are numbers, the secrets arbitrary
func c23Long(form, n int) (code string, in []*big.Int) {
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "v"+vNum(i))
		in = append(in, vB(int64(i*i+3)))
	}
	head, pub := strings.Join(names, ","), ""
	body, e := "", ""
	switch form {
	case 0: // product of all inputs
		e = "v0"
		for _, v := range names {
			e = v + "*(" + e + ")"
		}
	case 1: // all public but one
		pub = "public{" + strings.Join(names[1:], ",") + "}\n"
		e = "1"
		for i, v := range names {
			e = "(" + vNum(i) + "*" + v + ")+(" + e + ")"
		}
		e = "(" + e + ")*(v0*v1)"
	case 2: // an array of public inputs, a loop
		head = "a[" + vNum(n) + "],k"
		in = append(in, vB(7))
		pub = "public{a[" + vNum(n-1) + "],a[0]}\n"
		body = "var i = 0\nvar r = k\nfor (i<" + vNum(n) + ";i=i+1){\nr = r*a[i]\n}\n"
		e = "r+k"
	case 3: // one product repeated, quotients
		body = "var r = v0*v1\n"
		for i := 0; i < n; i++ {
			body += "r = (r+" + vNum(i+1) + ")/v" + vNum(i) + "\n"
		}
		e = "r*v0"
	}
	return "func main(" + head + "){\n" + pub + body + "return " + e + "\n}\n", in
}

func c23LongSize(max int) int {
	sizes := []int{4, 9, 23, 34}
	k := 0
	for k < len(sizes) && sizes[k] <= max {
		k++
	}
	return sizes[symChoose("n", k)]
}
