package ref

// Short are multiples of G whose coordinates have leading zero bytes
// (found by walking k*G for k up to 2^25): X2 two zero bytes in x, Y3 three in
// y, NY2 two in the y of the negated point, XY1 one in both.
var Short = map[string][]int64{
	"NY2": {22838, 64894, 80169, 81257, 4198387, 8389699, 8438411, 12613898, 16827253, 29411367},
	"X1T": {19308, 114554, 139388, 283768, 315480, 452754, 485584, 533433, 642417, 703034},
	"X2":  {44629, 58165, 63439, 68831, 127948, 185169, 218177, 247635, 4200669, 4400805, 8455768, 8481055, 8505736, 8524523, 8545430, 8666768, 12585593, 12617855, 12630989, 12671292, 12733104, 12918051, 16810068, 16814274, 16933046, 16943517, 17010447, 20972551, 21111370, 21123012, 21155132, 21170119, 21220806, 25298016, 25347415, 25403519, 25424852, 25444529, 25461872, 29604989},
	"X3":  {8673773, 21753172, 23777334, 32676188},
	"XY1": {55959, 62762, 4217000, 4253081, 8411214, 8475048, 12637734, 12645389, 12670010, 16778704, 16782185, 16788279, 16789537, 16814274, 21034110, 21076570, 25186727, 25218170, 25243271, 29404595},
	"Y2":  {41192, 4220098, 4241752, 4263605, 4448081, 4468851, 12653120, 12681227, 12716955, 12813526, 12882201, 16778845, 16822703, 16842156, 16849680, 16872727, 16879262, 16885331, 17007723, 17009804, 17024169, 17053592, 21023521, 21048553, 21070316, 21134762, 21182144, 21225718, 25304306, 25330855, 25385085, 25391785, 25410460, 25448004, 29361591, 29473710, 29483826, 29560449, 29602791, 29670011},
	"Y3":  {8169169},
}

// ShortKinds are the keys of Short in a fixed order.
var ShortKinds = []string{"NY2", "X1T", "X2", "X3", "XY1", "Y2", "Y3"}
