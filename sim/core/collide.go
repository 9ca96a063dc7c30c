package core

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/mearaj/bips/zzverif/simrt"
)

// Pairs of values that differ but share a common 32-bit hash or checksum (found by
// birthday search over the objects made from SHA-256 of a counter; see Seed16).
// One line per hash: h160 dsha crc fnva fnv sha256 sha1 md5 sha256le 31 33 33x 131 16777619^ crcc adler words bytes4.

var collisions = map[string][][]uint32{
	"seed": {
		{84247, 119837, 104490, 158197},
		{2695, 159717, 171435, 243825},
		{893, 261492, 39432, 211651},
		{130547, 229999, 40285, 202394},
		{176725, 178435, 16415, 66383},
		{90268, 212758, 147643, 188800},
		{1866, 168972, 180698, 242177},
		{72332, 83485, 39973, 106738},
		{99215, 161898, 92558, 138182},
		{86404, 100686, 7194, 25609},
		{30105, 236149, 137755, 149962},
		{1141, 198642, 188267, 248457},
		{24122, 109703, 44110, 235061},
		{63905, 246426, 161872, 224328},
		{191649, 252900, 92372, 199715},
		{70811, 175160, 52132, 105232},
		{88242, 217381, 158105, 222234},
		{90162, 144592, 79389, 102717},
	},
	"seedhex": {
		{170345, 191577, 113221, 262138},
		{147624, 160160, 85888, 168186},
		{142763, 216116, 14875, 207250},
		{124250, 246060, 32575, 238800},
		{68949, 250865, 62776, 155644},
		{43002, 175387, 11248, 125742},
		{125158, 209930, 81487, 150877},
		{207642, 223049, 54068, 124570},
		{114111, 115978, 151135, 261092},
		{69249, 79262, 94471, 160230},
		{97785, 118912, 104789, 128891},
		{116423, 248899, 171473, 238433},
		{56791, 57867, 172877, 184497},
		{76500, 171398, 11410, 100123},
		{119832, 236828, 118600, 131094},
		{43012, 171632, 65550, 210095},
		{39571, 133308, 36381, 183891},
		{128786, 194033, 194033, 224053},
	},
	"mn": {
		{173081, 219328, 159133, 241245},
		{106710, 116755, 25332, 39213},
		{22800, 175133, 203364, 219427},
		{209484, 235553, 67461, 162868},
		{36364, 80194, 124708, 166061},
		{121846, 157927, 38902, 69166},
		{129027, 166039, 81421, 234211},
		{65596, 183970, 69612, 186762},
		{52196, 214663, 24581, 184862},
		{35680, 235145, 4020, 119037},
		{69953, 118769, 77979, 247751},
		{90466, 226323, 21866, 114511},
		{77042, 134830, 87018, 236065},
		{64163, 70874, 90651, 135858},
		{189420, 209380, 5447, 170731},
		{29640, 241178, 41646, 164226},
		{8494, 144546, 175640, 251118},
		{3504, 5593, 5593, 9238},
	},
	"path": {
		{78368, 234101, 46124, 241232},
		{132742, 240497, 83475, 84079},
		{61133, 194792, 46902, 182845},
		{3541, 158066, 100733, 207689},
		{199101, 231536, 68302, 182084},
		{141324, 234668, 62521, 96576},
		{94244, 244091, 131664, 260623},
		{57505, 156837, 29605, 192841},
		{96839, 258079, 163473, 167013},
		{74069, 148312, 52143, 224638},
		{80552, 156950, 39893, 81220},
		{65387, 231999, 85638, 253688},
		{165376, 212196, 83113, 98395},
		{85812, 107334, 20810, 243387},
		{6246, 256555, 177376, 256260},
		{202996, 259516, 84746, 219712},
		{17895, 33455, 33455, 65871},
		{2774, 120342, 120342, 123875},
	},
	"key": {
		{189267, 246976, 4003, 218978},
		{13954, 192041, 81965, 115422},
		{25218, 187200, 48272, 68419},
		{20411, 35500, 151018, 196014},
		{112720, 121172, 103155, 208577},
		{119825, 195698, 54163, 151844},
		{23319, 227049, 151981, 219837},
		{33756, 230979, 23023, 227182},
		{54508, 144346, 46822, 151543},
		{206109, 250704, 157965, 243501},
		{102867, 252954, 44996, 51151},
		{4835, 23264, 27131, 153763},
		{43644, 259105, 23283, 201064},
		{86676, 91756, 9737, 147266},
		{84242, 261109, 121901, 216917},
		{228480, 231732, 110094, 205146},
		{204622, 219758, 67488, 178514},
		{184726, 249856, 68676, 228254},
	},
	"prv": {
		{225561, 238531, 158211, 231931},
		{130244, 195409, 26428, 211847},
		{160529, 254850, 12886, 250213},
		{154635, 178819, 209572, 230688},
		{123041, 187582, 19716, 161335},
		{108964, 213201, 26868, 50059},
		{111512, 254198, 25179, 150109},
		{36398, 222607, 11262, 185593},
		{218109, 255274, 16265, 217508},
		{54361, 229645, 134020, 224637},
		{137110, 254705, 11658, 82841},
		{116664, 185785, 147837, 230109},
		{97415, 202543, 74486, 216654},
		{28071, 44379, 53145, 213372},
		{147093, 224018, 76749, 110106},
		{68290, 88112, 14027, 67380},
		{88241, 224697, 192698, 235619},
		{184726, 249856, 68676, 228254},
	},
	"prvhex": {
		{167534, 179917, 223964, 235344},
		{38415, 175157, 63984, 114761},
		{16280, 69490, 53332, 209495},
		{4931, 133100, 12621, 150888},
		{149378, 241686, 187725, 261161},
		{36786, 107013, 38296, 116131},
		{38665, 237536, 44446, 228979},
		{154249, 249159, 4827, 251757},
		{76559, 199798, 50538, 172612},
		{123404, 219169, 147304, 175336},
		{122308, 241805, 142556, 152070},
		{113234, 226941, 49542, 58339},
		{175164, 187142, 217384, 254958},
		{73670, 93028, 2181, 178905},
		{6892, 111969, 174016, 252380},
		{64360, 81879, 126279, 197479},
		{42478, 157495, 4053, 64673},
		{101564, 153663, 153663, 185162},
	},
	"cc": {
		{96905, 150939, 96587, 227449},
		{80285, 127785, 245737, 261095},
		{83804, 123241, 46395, 130450},
		{88628, 230980, 124139, 184675},
		{914, 178921, 134947, 158840},
		{25775, 210384, 39622, 157691},
		{15043, 50008, 203806, 243740},
		{171871, 203675, 26606, 69190},
		{45454, 240760, 88450, 175399},
		{12406, 189038, 223475, 236884},
		{155535, 214700, 227450, 238945},
		{60502, 138735, 85766, 95845},
		{97219, 192352, 188278, 227992},
		{72565, 233910, 74647, 134253},
		{62978, 214617, 76183, 160279},
		{38791, 182445, 26372, 197740},
		{71933, 229055, 52020, 76728},
		{4497, 102359, 153551, 217069},
	},
	"pub": {
		{124947, 177313, 15809, 238098},
		{91164, 211489, 42990, 90015},
		{177990, 242026, 215013, 257064},
		{25044, 192649, 37478, 250383},
		{1838, 212086, 102994, 125279},
		{81983, 130765, 108767, 139529},
		{28847, 142825, 178854, 195760},
		{3784, 243606, 40319, 255005},
		{46708, 112445, 40362, 89751},
		{12413, 240255, 207747, 253104},
		{28541, 85234, 188221, 250252},
		{4980, 38877, 104317, 156859},
		{190648, 197649, 169120, 209930},
		{27673, 257043, 83598, 204971},
		{15505, 248823, 67604, 70494},
		{221129, 239912, 7538, 223565},
		{94515, 241725, 86178, 118316},
		{47280, 106179, 188937, 240694},
	},
	"pubhex": {
		{52541, 81382, 33249, 240893},
		{133320, 222113, 179654, 187150},
		{27037, 100652, 237679, 254220},
		{97436, 199422, 69644, 106284},
		{21110, 163718, 79671, 190983},
		{74374, 88919, 73117, 124116},
		{132161, 155500, 30102, 108288},
		{85772, 245673, 81732, 221995},
		{3943, 142313, 190626, 211321},
		{87956, 251991, 103982, 132504},
		{128778, 232552, 49237, 171711},
		{105191, 110472, 27873, 162369},
		{160854, 203620, 123579, 150378},
		{52808, 157951, 128744, 174904},
		{28763, 205493, 1343, 151130},
		{96246, 208340, 112240, 122090},
		{59199, 109904, 120235, 205992},
		{18073, 56176, 56176, 156953},
	},
	"b58": {
		{22340, 158469, 189742, 247437},
		{47568, 254117, 5200, 213322},
		{82923, 128216, 57526, 158706},
		{192363, 198463, 104984, 216605},
		{144907, 260569, 16488, 75176},
		{74044, 124734, 195316, 224423},
		{67809, 128900, 88847, 162740},
		{153468, 238873, 132236, 145077},
		{136663, 170299, 2211, 252129},
		{95314, 248008, 25587, 168669},
		{207078, 261158, 114763, 198475},
		{47825, 105247, 32560, 131073},
		{163140, 255504, 23819, 150235},
		{151207, 188449, 11332, 104553},
		{61016, 148800, 75180, 138048},
		{52922, 78968, 52583, 197315},
		{86482, 252407, 82179, 208525},
		{3469, 71269, 79814, 194134},
	},
	"xpub": {
		{119542, 171638, 58417, 148238},
		{121506, 130714, 50989, 229294},
		{67022, 92265, 129125, 221567},
		{175901, 192994, 193686, 243969},
		{80110, 125061, 39849, 159842},
		{44344, 189860, 33843, 89479},
		{202765, 215069, 33291, 48726},
		{122603, 159717, 30872, 82872},
		{162172, 227339, 33730, 205125},
		{33218, 189886, 124300, 245301},
		{221177, 253535, 37509, 62494},
		{60098, 248437, 89930, 139962},
		{22423, 173021, 17448, 187171},
		{172252, 241763, 150711, 260248},
		{15548, 127531, 102172, 102188},
		{32673, 183753, 92678, 220057},
		{156033, 183983, 35291, 72177},
		{47280, 106179, 188937, 240694},
	},
	"xpub58": {
		{163639, 183897, 173682, 227627},
		{222795, 230165, 28633, 252746},
		{113862, 238687, 215221, 222964},
		{151512, 216558, 26695, 189982},
		{38895, 158491, 86201, 252635},
		{204336, 250898, 89834, 207882},
		{55272, 177933, 212075, 243379},
		{96357, 141304, 100437, 167191},
		{113264, 202821, 34438, 89313},
		{79979, 191667, 6108, 100249},
		{82773, 92283, 24318, 142721},
		{59898, 79093, 137897, 238792},
		{90591, 226191, 11241, 175064},
		{83438, 262078, 81249, 203167},
		{118529, 243548, 117236, 135899},
		{19111, 170644, 57971, 58471},
		{4903, 130707, 243803, 261552},
		{142974, 248160, 17879, 26737},
	},
}

// Seed16 is the seed (and entropy) number i of the collision tables.
func Seed16(i uint32) []byte {
	h := seedSum(i)
	return h[:16]
}

func seedSum(i uint32) [32]byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], i)
	return sha256.Sum256(b[:])
}

// Path16 is the path number i of the collision tables.
func Path16(i uint32) string {
	h := seedSum(i)
	return fmt.Sprintf("m/%d'/%d/%d", h[16]%64, binary.BigEndian.Uint16(h[17:]), binary.BigEndian.Uint16(h[20:]))
}

// Collide draws two objects with the same hash in one of the given forms.
func Collide(r *simrt.Rand, kinds ...string) (uint32, uint32) {
	k := kinds[r.Intn(len(kinds))]
	h := 0
	if n := len(collisions[k]); r.Intn(5) > 1 {
		h = r.Intn(n)
	} else if r.Intn(2) == 0 {
		h = r.Intn(6)
	} else { // the fingerprint of a key, the checksum of a text
		for _, x := range kinds {
			if x == "pub" {
				k = x
			}
		}
	}
	l := collisions[k][h]
	i := 2 * r.Intn(len(l)/2)
	if r.Intn(2) == 0 {
		return l[i+1], l[i]
	}
	return l[i], l[i+1]
}

// crcTwin changes b, keeping its CRC-32.
func crcTwin(r *simrt.Rand, b []byte) {
	if len(b) < 5 {
		return
	}
	const poly = 0x104c11db7
	at := r.Intn(8*len(b) - 32)
	for j := 0; j < 33; j++ {
		if poly>>(32-j)&1 == 1 {
			b[(at+j)/8] ^= 1 << ((at + j) % 8)
		}
	}
}

// Near changes bytes slightly.
func Near(r *simrt.Rand, b []byte) {
	if len(b) == 0 {
		return
	}
	if r.Intn(16) == 0 {
		crcTwin(r, b)
		return
	}
	b[r.Intn(len(b))] ^= 1 << r.Intn(8)
}
