// Code generated by tools/gen_ref.py; DO NOT EDIT.

package ref

// Hanja is the published reading of U+3400 + index, 0 if there is none.
var Hanja = [50944]uint16{
	0xad6c, 0xcca8, 0xce60, 0xb9c8, 0xacfc, 0xc624, 0xc740, 0xad74, 0xb458, 0xc808, 0xc0b4, 0xd1a8, 0xc774, 0xc878, 0xae00, 0xc62c,
	0xb180, 0xb3cc, 0xc878, 0xac08, 0xace8, 0xc728, 0xd608, 0xb180, 0xc300, 0xb458, 0xc62c, 0xc6b8, 0xad6c, 0xad74, 0xae38, 0xae38,
	0xc728, 0xc720, 0xb730, 0xace8, 0xad6c, 0xc124, 0xac78, 0xc81c, 0xc11c, 0xd615, 0xcc9c, 0xd749, 0xb958, 0xb984, 0xc591, 0xc6a9,
	0xc2e0, 0xc9c4, 0xb300, 0xc62c, 0xbc18, 0xc720, 0xc0ac, 0xb9c8, 0xd760, 0xd758, 0xc911, 0xb0b4, 0xc2b9, 0xd48d, 0xc6d0, 0xaca9,
	0xd0dc, 0xcd9c, 0xbc29, 0xc694, 0xbaa8, 0xc791, 0xc774, 0xcd94, 0xb3d9, 0xc219, 0xc5ed, 0xad81, 0xc655, 0xb8b0, 0xb1cc, 0xc800,
	0xc219, 0xc790, 0xcca8, 0xc900, 0xc218, 0xc138, 0xc911, 0xc2e0, 0xac1c, 0xc811, 0xb098, 0xc18d, 0xc808, 0xb871, 0xc789, 0xd33d,
	0xacac, 0xc989, 0xac01, 0xb78c, 0xbb18, 0xc774, 0xb824, 0xacc4, 0xc624, 0xb77c, 0xc81c, 0xb150, 0xace0, 0xbe44, 0xd63c, 0xc218,
	0xd6fc, 0xc694, 0xb0a8, 0xcd94, 0xce68, 0xc9c8, 0xd76c, 0xd0dc, 0xc694, 0xd68c, 0xc900, 0xb9d0, 0xb7b5, 0xb2f9, 0xc694, 0xc18c,
	0xc801, 0xc6b0, 0xcc29, 0xc774, 0xc5f0, 0xacc4, 0xd761, 0xbb34, 0xac10, 0xcc3d, 0xc2b5, 0xc2dc, 0xacbd, 0xb8e8, 0xc0bd, 0xd55c,
	0xc21c, 0xd68c, 0xbcf5, 0xb2ec, 0xb3c5, 0xc559, 0xc6b0, 0xb300, 0xc218, 0xba74, 0xc740, 0xc870, 0xc5ec, 0xba78, 0xc900, 0xb1e8,
	0xd574, 0xc720, 0xc57d, 0xc751, 0xc12d, 0xd48d, 0xb8b0, 0xb824, 0xc120, 0xb77c, 0xc11d, 0xae30, 0xc655, 0xace4, 0xc2dc, 0xc5fd,
	0xc804, 0xbabd, 0xc7ac, 0xb7c9, 0xace8, 0xbaa8, 0xacf5, 0xd765, 0xc218, 0xc804, 0xb9dd, 0xbaa8, 0xb9cc, 0xad8c, 0xc2dc, 0xb9ac,
	0xbcf5, 0xba85, 0xad6c, 0xd0c0, 0xce68, 0xc815, 0xb95c, 0xc625, 0xbe59, 0xd65c, 0xb3d9, 0xacf5, 0xc7c1, 0xcda9, 0xce68, 0xacbd,
	0xb959, 0xd589, 0xce60, 0xb0a8, 0xc0ac, 0xba78, 0xd544, 0xacb0, 0xc219, 0xd749, 0xacf5, 0xacf5, 0xc720, 0xd615, 0xac08, 0xd53c,
	0xc810, 0xbd80, 0xb77d, 0xac11, 0xac08, 0xb2f9, 0xbc31, 0xd568, 0xc790, 0xd6e4, 0xb791, 0xb300, 0xace0, 0xc124, 0xc870, 0xb824,
	0xd68d, 0xb450, 0xd3b8, 0xc800, 0xc5f0, 0xc545, 0xacb0, 0xc758, 0xcc29, 0xccb4, 0xac74, 0xac15, 0xce60, 0xc22d, 0xc11c, 0xce60,
	0xb7c9, 0xb4f1, 0xb9b0, 0xc808, 0xc18d, 0xc18c, 0xc7a0, 0xbc1c, 0xbe44, 0xcd09, 0xc804, 0xac10, 0xcd94, 0xcd2c, 0xc124, 0xb825,
	0xcca8, 0xce60, 0xd734, 0xac74, 0xac15, 0xae00, 0xac01, 0xbe44, 0xcd9c, 0xbcd1, 0xad6c, 0xd560, 0xbc1c, 0xb7c9, 0xad34, 0xc138,
	0xd560, 0xbcc4, 0xc808, 0xb8b0, 0xc2ec, 0xd328, 0xc591, 0xb85c, 0xbc30, 0xc555, 0xb85c, 0xc88c, 0xd0c1, 0xc2dc, 0xb098, 0xc120,
	0xd56d, 0xc720, 0xada4, 0xada4, 0xc775, 0xc120, 0xac10, 0xb8e8, 0xccb4, 0xb97c, 0xc138, 0xbe44, 0xc21c, 0xc720, 0xc808, 0xc8fc,
	0xc8fc, 0xac01, 0xc74c, 0xacc4, 0xc9c0, 0xac11, 0xd638, 0xb78d, 0xc758, 0xac11, 0xbd80, 0xae08, 0xc560, 0xd1f4, 0xc555, 0xc8fc,
	0xc0ac, 0xc8fc, 0xc758, 0xc804, 0xccad, 0xd658, 0xc18c, 0xc720, 0xcc38, 0xc900, 0xc870, 0xc6b0, 0xc0ac, 0xace0, 0xc1c4, 0xad34,
	0xc30d, 0xd559, 0xac1c, 0xc5f0, 0xad6c, 0xc774, 0xd654, 0xd788, 0xbc94, 0xbc29, 0xb2f4, 0xbc29, 0xacf5, 0xc694, 0xbd80, 0xb20c,
	0xd559, 0xc6b0, 0xd65c, 0xd749, 0xce68, 0xb9dd, 0xc740, 0xbc15, 0xb9bd, 0xbc8c, 0xd6a8, 0xd22c, 0xd749, 0xc0ac, 0xc19f, 0xd5a5,
	0xb960, 0xb9b0, 0xc608, 0xd6c4, 0xc8fc, 0xc220, 0xace1, 0xc774, 0xb188, 0xae30, 0xc2ec, 0xac2f, 0xad7f, 0xb463, 0xac2f, 0xb148,
	0xc704, 0xacc4, 0xc81c, 0xd64d, 0xd0c4, 0xc54c, 0xc54c, 0xc74c, 0xc9c4, 0xac13, 0xbd93, 0xacf3, 0xacf3, 0xb057, 0xad18, 0xc218,
	0xb098, 0xc57c, 0xc790, 0xd22c, 0xd568, 0xad70, 0xb3d9, 0xd63c, 0xb85d, 0xcd94, 0xd68d, 0xb989, 0xc218, 0xcca8, 0xb95c, 0xb625,
	0xb625, 0xbc40, 0xc5ff, 0xc5ff, 0xd640, 0xad6c, 0xc5f4, 0xc2dc, 0xac39, 0xbd84, 0xcd98, 0xb274, 0xbaa8, 0xcc45, 0xc545, 0xc0ac,
	0xc720, 0xc545, 0xc0dd, 0xbb38, 0xb9cc, 0xd638, 0xac1d, 0xd558, 0xb9cc, 0xb7b5, 0xc9d1, 0xd6c4, 0xc9c8, 0xc7ac, 0xac00, 0xc65c,
	0xac11, 0xbc30, 0xc560, 0xcd94, 0xac74, 0xad6c, 0xb2f4, 0xd328, 0xbc15, 0xcd94, 0xb960, 0xc18c, 0xd6c4, 0xace0, 0xd30c, 0xc90f,
	0xbe44, 0xc787, 0xb3d9, 0xc81c, 0xcd95, 0xacfd, 0xb85c, 0xc9c8, 0xd574, 0xc2b5, 0xd53c, 0xc808, 0xcc28, 0xc2e4, 0xba85, 0xc7a3,
	0xc885, 0xc9d1, 0xd68d, 0xd0d1, 0xc548, 0xd6cc, 0xbc1c, 0xc0c8, 0xc704, 0xcd08, 0xbe44, 0xacfc, 0xc5c5, 0xd5a5, 0xd654, 0xd558,
	0xc791, 0xc5ed, 0xc790, 0xc57c, 0xb989, 0xd568, 0xb300, 0xc601, 0xc758, 0xc990, 0xc74d, 0xd604, 0xadf9, 0xc9c8, 0xd568, 0xb3d7,
	0xd45c, 0xb840, 0xc53b, 0xb780, 0xc0c8, 0xb78c, 0xc548, 0xad6c, 0xbe44, 0xc554, 0xd568, 0xac10, 0xc218, 0xb2d9, 0xc790, 0xcc3d,
	0xbcbd, 0xd569, 0xc639, 0xc120, 0xc644, 0xc640, 0xadfc, 0xc11c, 0xad34, 0xbe44, 0xbaa8, 0xc815, 0xbd88, 0xc694, 0xcc99, 0xc7a5,
	0xc9d0, 0xb2f4, 0xad6d, 0xad6c, 0xc88c, 0xd3ec, 0xac78, 0xc560, 0xc88c, 0xc790, 0xbc8c, 0xc778, 0xace0, 0xc7ac, 0xc6b0, 0xb148,
	0xad6c, 0xb9e4, 0xd0dc, 0xbcd1, 0xd3d0, 0xbcf4, 0xd64d, 0xcd09, 0xd558, 0xc804, 0xc7a5, 0xae30, 0xc18c, 0xcca0, 0xc704, 0xbcf5,
	0xd0c0, 0xc6b0, 0xc57c, 0xaddc, 0xc704, 0xad34, 0xc6b0, 0xc678, 0xc694, 0xb871, 0xc131, 0xbcf4, 0xb300, 0xd611, 0xc5bc, 0xb791,
	0xc608, 0xc885, 0xb9cc, 0xc7a5, 0xd558, 0xace4, 0xc0ac, 0xb958, 0xae30, 0xb8cc, 0xc608, 0xc9d1, 0xc740, 0xad90, 0xb2f5, 0xc608,
	0xd574, 0xd638, 0xc639, 0xac10, 0xcca8, 0xb300, 0xb2f9, 0xce69, 0xbc15, 0xbabd, 0xada4, 0xc804, 0xb8e8, 0xc11d, 0xac01, 0xd76c,
	0xd76c, 0xad50, 0xb0ad, 0xc6b4, 0xccb4, 0xb96d, 0xbcf5, 0xc885, 0xcc9c, 0xace0, 0xd574, 0xc870, 0xacfc, 0xad34, 0xb300, 0xd638,
	0xd22c, 0xb839, 0xc12c, 0xb798, 0xb151, 0xbd88, 0xace0, 0xc790, 0xbc18, 0xac00, 0xad49, 0xd61c, 0xc5ed, 0xc21c, 0xc2ec, 0xcc29,
	0xd6a8, 0xae30, 0xb178, 0xad50, 0xc775, 0xc6b0, 0xd76c, 0xc5c4, 0xc2e0, 0xc5fc, 0xd638, 0xc0bd, 0xade0, 0xc6b0, 0xb2f4, 0xc2ec,
	0xbc30, 0xad6c, 0xcca8, 0xc544, 0xd3ec, 0xb3d9, 0xc0ac, 0xb0b4, 0xc2dc, 0xbb18, 0xc789, 0xae30, 0xd638, 0xad50, 0xd615, 0xd3ec,
	0xcd94, 0xd3c9, 0xc640, 0xacb0, 0xc758, 0xc774, 0xd0c0, 0xc7a5, 0xace0, 0xc11c, 0xd0c0, 0xc774, 0xbaa8, 0xd611, 0xb824, 0xad6c,
	0xc218, 0xcc2c, 0xb450, 0xce58, 0xbd09, 0xc555, 0xc0ac, 0xc88c, 0xbc1c, 0xc2e0, 0xc6a9, 0xc2e0, 0xc720, 0xd328, 0xb871, 0xd658,
	0xd55c, 0xc644, 0xc218, 0xc6b4, 0xb9ac, 0xd0d1, 0xb78c, 0xb9d8, 0xac15, 0xcd95, 0xc5c4, 0xc11d, 0xb959, 0xc11d, 0xc218, 0xba74,
	0xd63c, 0xc678, 0xbc1c, 0xc608, 0xb1cc, 0xce6d, 0xd0c4, 0xacc4, 0xc218, 0xbcc0, 0xc554, 0xacfc, 0xc0bd, 0xc0b0, 0xd568, 0xb300,
	0xc0c1, 0xc0ac, 0xbd09, 0xb828, 0xc2ec, 0xcd95, 0xbbf8, 0xc774, 0xbaa9, 0xc639, 0xc804, 0xc775, 0xb204, 0xb2f9, 0xd61c, 0xc6b4,
	0xc218, 0xd30c, 0xc608, 0xb2f5, 0xacbd, 0xb828, 0xc870, 0xcc38, 0xcc98, 0xb85d, 0xc219, 0xb208, 0xc624, 0xc554, 0xcc38, 0xac10,
	0xcd5c, 0xc885, 0xb8e8, 0xc5f0, 0xb2f4, 0xb9e4, 0xc2ec, 0xc6d4, 0xb0b4, 0xc624, 0xc2e0, 0xbbf8, 0xcca8, 0xb2f9, 0xb78c, 0xd76c,
	0xc57d, 0xc9c8, 0xc601, 0xd68c, 0xbabd, 0xb1e8, 0xbc18, 0xbbf8, 0xc5bc, 0xad6c, 0xcc2c, 0xb828, 0xc9c8, 0xc790, 0xd574, 0xc11c,
	0xd638, 0xacac, 0xc81c, 0xba74, 0xc21c, 0xb204, 0xd76c, 0xc21c, 0xb828, 0xc800, 0xc218, 0xb8cc, 0xad6c, 0xc0ac, 0xc815, 0xac1c,
	0xc6a9, 0xbc29, 0xac70, 0xd569, 0xc694, 0xb155, 0xc758, 0xb7c9, 0xc639, 0xc778, 0xc5f0, 0xc219, 0xc11d, 0xb9bc, 0xc544, 0xbaa8,
	0xba85, 0xcd5c, 0xc6b0, 0xc608, 0xad6c, 0xbbf8, 0xc900, 0xc628, 0xc6d0, 0xac15, 0xc810, 0xb96d, 0xd560, 0xc131, 0xcd5c, 0xad50,
	0xba74, 0xbabd, 0xce68, 0xb300, 0xc644, 0xc560, 0xb4dd, 0xc2ec, 0xbcc0, 0xb204, 0xb834, 0xadfc, 0xc6b0, 0xc218, 0xc88c, 0xd30c,
	0xd68c, 0xc694, 0xd1f4, 0xadf9, 0xc554, 0xb77c, 0xae30, 0xc678, 0xbc1c, 0xcc30, 0xc220, 0xc9c1, 0xc789, 0xd658, 0xd30c, 0xce69,
	0xac70, 0xbbf8, 0xd574, 0xae30, 0xc2dc, 0xc124, 0xcc28, 0xad6c, 0xb3c5, 0xb1e8, 0xce69, 0xae30, 0xd1f4, 0xcc99, 0xc1a1, 0xc804,
	0xb8cc, 0xc804, 0xc9c0, 0xbd84, 0xc74c, 0xc7a0, 0xada4, 0xd68c, 0xc9c0, 0xb78c, 0xb178, 0xc8fc, 0xadfc, 0xb300, 0xc704, 0xae30,
	0xd5c8, 0xcd1d, 0xc6c5, 0xb450, 0xc9c0, 0xb3c4, 0xbbfc, 0xc655, 0xbd88, 0xac00, 0xc871, 0xd638, 0xc2b9, 0xc6d4, 0xb2c8, 0xae30,
	0xb828, 0xc548, 0xbaa8, 0xc0ac, 0xc0c1, 0xc559, 0xd654, 0xc88c, 0xad6c, 0xb85c, 0xbd80, 0xd0dc, 0xb9dd, 0xb791, 0xd0c0, 0xd568,
	0xb9dd, 0xbc1c, 0xade0, 0xae30, 0xd568, 0xb450, 0xb871, 0xbe48, 0xc870, 0xcc45, 0xae30, 0xc7a0, 0xbbf8, 0xbc30, 0xc794, 0xd56d,
	0xac15, 0xad8c, 0xae30, 0xc22d, 0xb85d, 0xcc38, 0xc6b4, 0xc545, 0xb2e8, 0xbbfc, 0xc704, 0xcc9c, 0xc218, 0xbbfc, 0xb3cc, 0xc561,
	0xba85, 0xc694, 0xc6d0, 0xb960, 0xc678, 0xac15, 0xc6d0, 0xb2f5, 0xace0, 0xb8cc, 0xb8e8, 0xcc38, 0xc624, 0xd45c, 0xc6a9, 0xb9dd,
	0xb3c4, 0xcc38, 0xc624, 0xc801, 0xc2b5, 0xbcf5, 0xb2e8, 0xcd94, 0xc724, 0xb3d9, 0xd5c8, 0xc545, 0xae30, 0xc9d1, 0xc9d1, 0xd654,
	0xad50, 0xc8c4, 0xd45c, 0xbabd, 0xbc30, 0xc678, 0xc758, 0xc624, 0xc11c, 0xd638, 0xb300, 0xd655, 0xc758, 0xcc2c, 0xc9d5, 0xb824,
	0xb824, 0xb1e8, 0xd68c, 0xb825, 0xc591, 0xb8b0, 0xd48d, 0xbbf8, 0xc6b8, 0xd669, 0xac70, 0xbd80, 0xbd80, 0xc804, 0xbd09, 0xc774,
	0xac08, 0xae30, 0xbe44, 0xb9c9, 0xc778, 0xd669, 0xbc94, 0xac11, 0xbd80, 0xac1c, 0xc0ac, 0xd76c, 0xc0ac, 0xb3d9, 0xc6d0, 0xc790,
	0xd3d0, 0xacfc, 0xb840, 0xd669, 0xc21c, 0xb098, 0xd669, 0xcca9, 0xbb38, 0xd604, 0xd761, 0xc5c5, 0xbaa8, 0xbc31, 0xc0bc, 0xc720,
	0xc804, 0xc870, 0xc900, 0xace4, 0xbb34, 0xc601, 0xc885, 0xccb4, 0xb834, 0xbe44, 0xad6c, 0xd669, 0xc124, 0xbd09, 0xb8e8, 0xc870,
	0xc815, 0xc8fc, 0xb9cc, 0xb8e1, 0xc5c5, 0xc740, 0xbe48, 0xc815, 0xcca8, 0xb780, 0xb208, 0xc608, 0xae30, 0xacc4, 0xae30, 0xd0dd,
	0xc6b0, 0xad6c, 0xd658, 0xc800, 0xb78d, 0xb839, 0xc9c0, 0xbcf8, 0xc0ac, 0xc800, 0xb2e8, 0xb8cc, 0xc608, 0xc870, 0xd55c, 0xcc99,
	0xc790, 0xce58, 0xc5c4, 0xb791, 0xb450, 0xb871, 0xc804, 0xc5b8, 0xd1f4, 0xd0c0, 0xc758, 0xce58, 0xc544, 0xc601, 0xc811, 0xd22c,
	0xc544, 0xc218, 0xcc28, 0xc7a5, 0xc885, 0xc639, 0xbc18, 0xad50, 0xb834, 0xadfc, 0xb85c, 0xc5c4, 0xac15, 0xc18c, 0xc775, 0xc9c0,
	0xd615, 0xc7a5, 0xd3d0, 0xacbd, 0xc7ac, 0xb3d9, 0xac00, 0xad8c, 0xd55c, 0xc801, 0xc624, 0xc0b0, 0xd6a1, 0xb3c4, 0xc774, 0xb3c8,
	0xd53c, 0xba70, 0xc190, 0xb85c, 0xc11c, 0xd611, 0xd544, 0xc138, 0xd544, 0xc2e0, 0xd604, 0xc704, 0xbcc4, 0xc774, 0xacac, 0xd6c4,
	0xc9c4, 0xbe44, 0xc5ed, 0xc721, 0xac70, 0xc7a0, 0xbbf8, 0xc774, 0xc2dc, 0xacf5, 0xc218, 0xb2e8, 0xc0bc, 0xd0dc, 0xbaa9, 0xc815,
	0xbcc0, 0xc6a9, 0xc99d, 0xcc2c, 0xc815, 0xb300, 0xd0dc, 0xd638, 0xad6c, 0xc801, 0xd1b5, 0xd68c, 0xd615, 0xc22d, 0xd0c8, 0xae38,
	0xb3d9, 0xc911, 0xc81c, 0xc12c, 0xcc9c, 0xce58, 0xc704, 0xc724, 0xace0, 0xb9bc, 0xc644, 0xc885, 0xc9d1, 0xc885, 0xb0a8, 0xc124,
	0xc2e4, 0xc0c9, 0xbbf8, 0xbb34, 0xd669, 0xb2ec, 0xb2e8, 0xb155, 0xc720, 0xc751, 0xc2ec, 0xc560, 0xc778, 0xc11c, 0xcc28, 0xc870,
	0xb9dd, 0xcca8, 0xae09, 0xbc29, 0xd328, 0xc560, 0xd310, 0xc624, 0xc2ec, 0xac00, 0xd6a8, 0xbd84, 0xac10, 0xad50, 0xac00, 0xb3d9,
	0xcca8, 0xc6b0, 0xace0, 0xbd84, 0xbd80, 0xc904, 0xc800, 0xd0dc, 0xcd08, 0xc740, 0xd56d, 0xc784, 0xd73c, 0xcda9, 0xd0c1, 0xacf5,
	0xb82c, 0xb840, 0xc6b1, 0xd33d, 0xc608, 0xd574, 0xb9ac, 0xd6c4, 0xacf5, 0xac01, 0xc6d0, 0xb355, 0xc5d0, 0xad50, 0xad11, 0xacbd,
	0xc791, 0xbd80, 0xd611, 0xbc30, 0xcca9, 0xc790, 0xbc29, 0xd568, 0xd601, 0xad6c, 0xd669, 0xb860, 0xac81, 0xc8fc, 0xd0d0, 0xc5c4,
	0xc2dd, 0xb355, 0xd2b9, 0xbbfc, 0xb989, 0xc218, 0xd1f4, 0xc794, 0xcca9, 0xbd80, 0xbd95, 0xc758, 0xad6d, 0xae30, 0xb9ac, 0xc804,
	0xc6d0, 0xc6b0, 0xcc44, 0xae30, 0xc721, 0xb828, 0xc885, 0xbbfc, 0xac81, 0xcda9, 0xc720, 0xadf9, 0xc704, 0xbbf8, 0xc218, 0xd734,
	0xc11c, 0xce58, 0xcd94, 0xd61c, 0xae0d, 0xc6b0, 0xd611, 0xc21c, 0xc218, 0xd0c0, 0xb8e8, 0xb3c8, 0xbc29, 0xd0dc, 0xcd08, 0xc740,
	0xc18c, 0xbe44, 0xc9c4, 0xc6d0, 0xc774, 0xd754, 0xc0c9, 0xd611, 0xbbfc, 0xbd84, 0xd569, 0xcc99, 0xc740, 0xcc45, 0xb2c9, 0xc624,
	0xbd09, 0xb828, 0xc0c1, 0xc0b0, 0xb9c8, 0xcc44, 0xd638, 0xb85d, 0xc560, 0xc758, 0xd654, 0xcc28, 0xcc2c, 0xc545, 0xd68d, 0xc21c,
	0xb2c8, 0xac10, 0xb9ac, 0xc5f0, 0xc5fc, 0xb96d, 0xbb38, 0xae08, 0xaca9, 0xc6b0, 0xbcc0, 0xc5ec, 0xd655, 0xb9c9, 0xc8fc, 0xb9e4,
	0xb300, 0xb77d, 0xc808, 0xc704, 0xc758, 0xd5cc, 0xd601, 0xcc38, 0xb780, 0xc740, 0xc12d, 0xcc30, 0xb77c, 0xb839, 0xc804, 0xd639,
	0xcca8, 0xc544, 0xc7ac, 0xc7ac, 0xaca9, 0xc8fc, 0xc6a9, 0xc6a9, 0xadf9, 0xc591, 0xc695, 0xc2b5, 0xc0c1, 0xc6b1, 0xc774, 0xd638,
	0xae09, 0xac11, 0xc804, 0xaddc, 0xac80, 0xb3c4, 0xadfc, 0xbaa8, 0xc778, 0xc54c, 0xbc1c, 0xd604, 0xbaa8, 0xbc29, 0xc544, 0xac15,
	0xc1a1, 0xd718, 0xc694, 0xacfc, 0xad34, 0xb958, 0xc561, 0xc790, 0xc790, 0xbe44, 0xc640, 0xb78c, 0xc7a1, 0xac00, 0xbc1c, 0xd68c,
	0xc774, 0xd574, 0xc778, 0xc8fc, 0xcda9, 0xc120, 0xd604, 0xc18c, 0xad6c, 0xd328, 0xada4, 0xc720, 0xacf5, 0xacf5, 0xd640, 0xb85c,
	0xb825, 0xb098, 0xc0bc, 0xc7ac, 0xc544, 0xbd80, 0xac31, 0xd0c4, 0xd33d, 0xd2b9, 0xb2f5, 0xd0c1, 0xd45c, 0xace0, 0xd640, 0xcc3d,
	0xbcd1, 0xc9c0, 0xb3d9, 0xd1f4, 0xc870, 0xc608, 0xb984, 0xd30c, 0xc81c, 0xbbfc, 0xd0c0, 0xcc28, 0xad6c, 0xbc29, 0xc5f0, 0xd0c4,
	0xbd80, 0xc885, 0xaddc, 0xb85c, 0xd568, 0xc601, 0xce58, 0xcca9, 0xc131, 0xd61c, 0xc21c, 0xc12c, 0xac74, 0xc124, 0xc18c, 0xac1c,
	0xba74, 0xd640, 0xd53c, 0xc639, 0xd68c, 0xb0a9, 0xc1a1, 0xbd84, 0xcd94, 0xcca9, 0xd669, 0xb78c, 0xc6d0, 0xd638, 0xb450, 0xd655,
	0xace4, 0xc694, 0xcc45, 0xae30, 0xac74, 0xc804, 0xb3c4, 0xadfc, 0xb9d0, 0xc81c, 0xba74, 0xcc38, 0xb7b5, 0xbcbd, 0xc591, 0xac70,
	0xac70, 0xac01, 0xc0ad, 0xac74, 0xc0ac, 0xcd94, 0xcd94, 0xd68d, 0xc6b4, 0xd761, 0xc120, 0xc219, 0xbe44, 0xcc45, 0xc5fd, 0xbb35,
	0xb3c8, 0xc0bd, 0xae08, 0xd6fc, 0xb454, 0xb839, 0xac15, 0xd734, 0xc758, 0xc0c9, 0xbabd, 0xb2e8, 0xb78c, 0xd638, 0xcc45, 0xc7ac,
	0xc624, 0xb77c, 0xba78, 0xd718, 0xbd80, 0xc12c, 0xd734, 0xbc15, 0xd61c, 0xacbd, 0xd790, 0xc9c8, 0xd76c, 0xd6a8, 0xac74, 0xd30c,
	0xcd08, 0xc791, 0xad8c, 0xc1a1, 0xad6d, 0xc54c, 0xb151, 0xac74, 0xcca9, 0xcca9, 0xbe44, 0xae30, 0xc9c0, 0xae30, 0xcd94, 0xad74,
	0xc6b0, 0xae08, 0xad74, 0xac00, 0xbd88, 0xacbd, 0xc800, 0xc120, 0xacc4, 0xac11, 0xad70, 0xd55c, 0xd1b5, 0xbc1c, 0xc12c, 0xbe44,
	0xb960, 0xc5c5, 0xc608, 0xc8c4, 0xc0b0, 0xc791, 0xb85d, 0xd22c, 0xb834, 0xacfc, 0xc0b0, 0xce68, 0xcde8, 0xb828, 0xbaa8, 0xb3c8,
	0xac10, 0xac1c, 0xc18c, 0xace0, 0xd544, 0xc790, 0xc778, 0xd761, 0xc120, 0xc219, 0xc0bd, 0xc608, 0xd0c1, 0xb85c, 0xb839, 0xac70,
	0xc7ac, 0xd658, 0xb451, 0xb465, 0xd560, 0xbc18, 0xace1, 0xb450, 0xc9d0, 0xb8e8, 0xad6c, 0xad8c, 0xac00, 0xc18c, 0xaca9, 0xc808,
	0xc815, 0xb2e8, 0xc800, 0xc5b8, 0xbc29, 0xae30, 0xbbf8, 0xc5b5, 0xc5c9, 0xc704, 0xc758, 0xc804, 0xc815, 0xc720, 0xd718, 0xc694,
	0xc694, 0xc9c0, 0xacf5, 0xae30, 0xac04, 0xad11, 0xc9c0, 0xd6c4, 0xbc00, 0xbd80, 0xbb3c, 0xad11, 0xb2e8, 0xc800, 0xb3c4, 0xc5f0,
	0xbc18, 0xb3d9, 0xac70, 0xbbfc, 0xcc3d, 0xba85, 0xd1a0, 0xd3ec, 0xc548, 0xcd98, 0xc6a9, 0xd604, 0xc21c, 0xc2dc, 0xc790, 0xbb35,
	0xb791, 0xb09c, 0xd328, 0xc2e0, 0xd6a8, 0xbe44, 0xc8fc, 0xae30, 0xcca9, 0xc18c, 0xc11d, 0xace4, 0xc81c, 0xb85d, 0xc0c1, 0xc720,
	0xc21c, 0xc7a1, 0xc6b0, 0xb300, 0xcc2c, 0xb9cc, 0xbbfc, 0xd658, 0xc628, 0xb09c, 0xd658, 0xd6c4, 0xacbd, 0xbc15, 0xd604, 0xb825,
	0xc9c4, 0xd655, 0xb9dd, 0xd45c, 0xd638, 0xc591, 0xacc4, 0xb144, 0xc18d, 0xc704, 0xcca0, 0xd761, 0xc9c4, 0xc1a1, 0xac08, 0xbd95,
	0xc1c4, 0xb839, 0xd76c, 0xb300, 0xae09, 0xd3ec, 0xd655, 0xd3ec, 0xd601, 0xd61c, 0xcca9, 0xc5f0, 0xad6c, 0xc791, 0xb09c, 0xb82c,
	0xc720, 0xccb4, 0xcca8, 0xc624, 0xd64d, 0xad50, 0xd638, 0xace4, 0xb3c4, 0xc7c1, 0xad8c, 0xd669, 0xbcf5, 0xc870, 0xc758, 0xb3c8,
	0xc11c, 0xc789, 0xcd08, 0xac15, 0xc9c4, 0xc0bc, 0xb0b4, 0xc5f0, 0xacb0, 0xd654, 0xc11d, 0xbc29, 0xbb34, 0xce60, 0xac15, 0xd718,
	0xb9d0, 0xb9e4, 0xc0ac, 0xbcc0, 0xb85c, 0xac70, 0xb300, 0xc6b8, 0xd569, 0xc801, 0xb824, 0xd30c, 0xc735, 0xad6c, 0xb82c, 0xacf5,
	0xc120, 0xc2e0, 0xd615, 0xbb38, 0xc870, 0xbd80, 0xd0dd, 0xbc18, 0xc57c, 0xb82c, 0xbd80, 0xc88c, 0xc800, 0xd314, 0xcd2c, 0xcca9,
	0xcd94, 0xac11, 0xac81, 0xd6a8, 0xacac, 0xc804, 0xbc29, 0xb0a8, 0xb3c4, 0xd604, 0xc5c4, 0xb2f9, 0xb2f5, 0xc800, 0xad74, 0xc559,
	0xac10, 0xd6a8, 0xace1, 0xc704, 0xbc29, 0xcd94, 0xc5bc, 0xcca8, 0xb0b4, 0xd611, 0xbb34, 0xc6b1, 0xba74, 0xc794, 0xbc30, 0xb0b4,
	0xc131, 0xce69, 0xc5f0, 0xae0d, 0xcda9, 0xc774, 0xac08, 0xadfc, 0xbb34, 0xc545, 0xb960, 0xc2dc, 0xc7a5, 0xd601, 0xc808, 0xb144,
	0xc601, 0xad00, 0xd6c4, 0xac1c, 0xc1a1, 0xbd84, 0xc0c9, 0xc624, 0xc9c1, 0xc2dd, 0xacf5, 0xd560, 0xc639, 0xd568, 0xacb0, 0xd63c,
	0xbe44, 0xc2b9, 0xcd94, 0xc9d0, 0xc18c, 0xc804, 0xc0ad, 0xacc4, 0xc1a1, 0xce58, 0xbcf8, 0xc870, 0xc0b0, 0xbc18, 0xb791, 0xd544,
	0xc120, 0xbc30, 0xb300, 0xce60, 0xc9c0, 0xd53c, 0xc0b0, 0xd3d0, 0xc18d, 0xc800, 0xd754, 0xacbd, 0xcc9c, 0xc7a5, 0xb17c, 0xd615,
	0xd0c0, 0xd0f1, 0xba71, 0xd0d1, 0xcde8, 0xc11c, 0xc801, 0xd55c, 0xad00, 0xcca0, 0xb2f5, 0xd638, 0xcde8, 0xb85c, 0xacac, 0xb85d,
	0xacac, 0xd3ec, 0xc9d0, 0xbd84, 0xb825, 0xc870, 0xae30, 0xcd08, 0xc728, 0xc774, 0xb839, 0xac70, 0xb834, 0xb85c, 0xcd09, 0xacf5,
	0xce58, 0xd45c, 0xae08, 0xacbd, 0xc6a9, 0xb3d9, 0xc885, 0xbcf5, 0xc9c4, 0xd45c, 0xd568, 0xbcf8, 0xac1c, 0xbe48, 0xc870, 0xb835,
	0xb824, 0xb77c, 0xc2ec, 0xba74, 0xc804, 0xc801, 0xbc30, 0xc12c, 0xb828, 0xc9c4, 0xc12c, 0xbe48, 0xac01, 0xb871, 0xcd94, 0xace0,
	0xd0c0, 0xc0bc, 0xd559, 0xb78c, 0xc12d, 0xd76c, 0xb78c, 0xcd95, 0xc774, 0xb098, 0xb9ac, 0xc57d, 0xc804, 0xc774, 0xce58, 0xae30,
	0xd56d, 0xd574, 0xac31, 0xc790, 0xd558, 0xd61c, 0xac70, 0xd574, 0xd76c, 0xd574, 0xc65c, 0xcc38, 0xc21c, 0xd6c4, 0xc2e0, 0xb450,
	0xd569, 0xc0bd, 0xc6b1, 0xc544, 0xbd80, 0xc878, 0xad6c, 0xc790, 0xac10, 0xd568, 0xd558, 0xc774, 0xc12d, 0xc5b8, 0xad50, 0xd61c,
	0xce58, 0xc218, 0xac15, 0xc74c, 0xd751, 0xc758, 0xd76c, 0xc0c9, 0xae08, 0xc5c5, 0xc6b0, 0xac01, 0xcca9, 0xb780, 0xace4, 0xc815,
	0xbb34, 0xc138, 0xac00, 0xb839, 0xc0ac, 0xadc0, 0xcde8, 0xd734, 0xc5fc, 0xd6c4, 0xc794, 0xcc9c, 0xcc30, 0xc0ac, 0xc74d, 0xd53c,
	0xace0, 0xc2b9, 0xb791, 0xd1f4, 0xc11d, 0xb989, 0xae30, 0xc644, 0xb834, 0xb3c5, 0xd63c, 0xb780, 0xc624, 0xb2e8, 0xada4, 0xc560,
	0xc7ac, 0xd68c, 0xc758, 0xb9c9, 0xc9c0, 0xbd84, 0xd33d, 0xc9d1, 0xbcbd, 0xb825, 0xb824, 0xb77c, 0xd574, 0xae08, 0xac1c, 0xac01,
	0xc9c4, 0xacf5, 0xc815, 0xad6c, 0xad6c, 0xacc4, 0xb839, 0xb3d9, 0xc18c, 0xac01, 0xc608, 0xcc29, 0xb155, 0xc9c0, 0xb8e8, 0xd45c,
	0xae08, 0xc218, 0xd3ec, 0xc218, 0xc120, 0xb8b0, 0xc18c, 0xbd80, 0xad6c, 0xc218, 0xc0ac, 0xc9c0, 0xb2f4, 0xc6a9, 0xc194, 0xc601,
	0xb9ac, 0xb0b4, 0xbcc0, 0xc218, 0xc1e0, 0xb2f9, 0xd55c, 0xc18c, 0xc6a9, 0xd0d1, 0xb4f1, 0xbcf5, 0xcd08, 0xb2f4, 0xd0d1, 0xb78c,
	0xb155, 0xb835, 0xcca9, 0xc9c8, 0xc911, 0xc18c, 0xb85d, 0xb2f4, 0xd761, 0xae30, 0xc9c8, 0xb2c9, 0xc608, 0xc778, 0xc6b0, 0xc655,
	0xacfc, 0xce21, 0xc5f0, 0xc26c, 0xc5f0, 0xb958, 0xd1b5, 0xbb34, 0xd328, 0xc6d4, 0xc720, 0xad6c, 0xc555, 0xd3ec, 0xbcc0, 0xc2dc,
	0xcc30, 0xc77c, 0xbc95, 0xc6b0, 0xb300, 0xb780, 0xc758, 0xcc44, 0xcda9, 0xc5f0, 0xd73c, 0xc720, 0xd734, 0xc655, 0xcda9, 0xacf5,
	0xb2ec, 0xacfc, 0xad50, 0xb85c, 0xc219, 0xb871, 0xacc4, 0xcca9, 0xcc30, 0xb2f4, 0xbe44, 0xb2f5, 0xc120, 0xc5f0, 0xb1e8, 0xc2e0,
	0xad6c, 0xc591, 0xd0dc, 0xadf9, 0xbc00, 0xacc4, 0xc720, 0xd640, 0xd654, 0xc655, 0xc720, 0xcc45, 0xd544, 0xbbf8, 0xac15, 0xc124,
	0xbc94, 0xc5ed, 0xb2f4, 0xb8e8, 0xc575, 0xc18c, 0xce68, 0xc12d, 0xc740, 0xc81c, 0xc5f0, 0xc219, 0xace0, 0xc2b9, 0xb0b4, 0xc655,
	0xba74, 0xc18c, 0xc5ed, 0xc0ac, 0xc74d, 0xc9d1, 0xbc15, 0xc720, 0xbaa8, 0xc0bd, 0xc218, 0xce58, 0xd3b8, 0xb824, 0xb3c4, 0xd6c4,
	0xd568, 0xd5a5, 0xc911, 0xc774, 0xc8fc, 0xcd08, 0xad81, 0xc2dd, 0xc9d0, 0xc639, 0xc5bc, 0xad70, 0xc0ac, 0xc694, 0xc124, 0xc9c0,
	0xb2a5, 0xc2ec, 0xc0ac, 0xbabd, 0xce68, 0xbc00, 0xac01, 0xd0d0, 0xc12c, 0xbbf8, 0xb798, 0xc8fc, 0xc219, 0xc124, 0xbc1c, 0xc815,
	0xc871, 0xd669, 0xc11c, 0xc0ac, 0xd55c, 0xd0d0, 0xd638, 0xcca8, 0xd65c, 0xb9bc, 0xb151, 0xb9e4, 0xc21c, 0xbb38, 0xac04, 0xcd5c,
	0xad90, 0xd558, 0xbe44, 0xc2dd, 0xc0ac, 0xc0bc, 0xb140, 0xbe59, 0xb9cc, 0xccad, 0xbd80, 0xc120, 0xb0a8, 0xc608, 0xc218, 0xbbf8,
	0xad74, 0xbc15, 0xb8b0, 0xac08, 0xc0bd, 0xbc00, 0xc218, 0xac08, 0xbcbd, 0xc608, 0xc120, 0xc74d, 0xc601, 0xc800, 0xc21c, 0xbd95,
	0xc11c, 0xd45c, 0xbb34, 0xb8cc, 0xc7a5, 0xcd94, 0xcd2c, 0xbcc0, 0xc57d, 0xb9e5, 0xbe44, 0xd734, 0xc0ac, 0xb8b0, 0xc815, 0xd6a8,
	0xad50, 0xad35, 0xd669, 0xbb34, 0xc5fc, 0xd559, 0xc800, 0xd6a1, 0xc601, 0xacc4, 0xd76c, 0xc720, 0xb828, 0xc120, 0xd658, 0xc740,
	0xc751, 0xb834, 0xc2ec, 0xc7a5, 0xbc30, 0xac04, 0xc219, 0xbc18, 0xc810, 0xc720, 0xd328, 0xc5ec, 0xc5f0, 0xc751, 0xb0ad, 0xb8e8,
	0xc5ed, 0xd654, 0xad6c, 0xc810, 0xcd08, 0xac04, 0xc2e0, 0xb208, 0xbc30, 0xce68, 0xbc30, 0xb8cc, 0xb9d0, 0xc720, 0xc18c, 0xb958,
	0xd568, 0xbcf8, 0xc6a9, 0xc2e0, 0xce58, 0xc784, 0xb18d, 0xc21c, 0xd611, 0xd64d, 0xcca8, 0xbd09, 0xc560, 0xacfc, 0xd45c, 0xbc1c,
	0xacbd, 0xd1b5, 0xc11c, 0xcd94, 0xd68c, 0xcd08, 0xbd80, 0xd68c, 0xc555, 0xc704, 0xbd84, 0xc5fc, 0xbd80, 0xb95c, 0xc54c, 0xc639,
	0xd6fc, 0xc5f0, 0xc6b0, 0xcd1d, 0xc5fc, 0xcd94, 0xc870, 0xd76c, 0xb300, 0xc804, 0xc815, 0xbcf4, 0xd601, 0xb3cc, 0xd6c4, 0xd1f4,
	0xb9b0, 0xacbd, 0xcc28, 0xc131, 0xd639, 0xc99d, 0xd601, 0xc6d0, 0xbd09, 0xd76c, 0xc900, 0xacbd, 0xb9c9, 0xbd09, 0xc870, 0xbd09,
	0xb9ac, 0xc6c5, 0xb3d9, 0xc548, 0xb825, 0xbb35, 0xbcbd, 0xc790, 0xc5fd, 0xb3c4, 0xc5fc, 0xbb34, 0xc5f0, 0xc120, 0xac39, 0xd5d8,
	0xb300, 0xd55c, 0xc218, 0xc810, 0xc81c, 0xc808, 0xace0, 0xcc2c, 0xcd08, 0xc12d, 0xb784, 0xbc88, 0xacfd, 0xd76c, 0xc12d, 0xbbf8,
	0xc5f0, 0xcc2c, 0xc74c, 0xb3c4, 0xac04, 0xd655, 0xc800, 0xb3d9, 0xb9cc, 0xcc28, 0xb9ac, 0xc18c, 0xacf5, 0xd5d8, 0xc808, 0xc9c0,
	0xc870, 0xc218, 0xbe44, 0xc5c5, 0xd3b8, 0xcc38, 0xd638, 0xac04, 0xad6c, 0xc548, 0xc21c, 0xac74, 0xd328, 0xd30c, 0xbd84, 0xacfc,
	0xd0c0, 0xd0c0, 0xc791, 0xb839, 0xc18c, 0xadc0, 0xc5f0, 0xc138, 0xd6c4, 0xb82c, 0xc0ac, 0xc0ac, 0xbd09, 0xd328, 0xc778, 0xb3c5,
	0xc790, 0xb7c9, 0xacac, 0xbe44, 0xc9c1, 0xcd1d, 0xd718, 0xac78, 0xb9ac, 0xc6d0, 0xc545, 0xc218, 0xc0b0, 0xc801, 0xb8e8, 0xadfc,
	0xc1a1, 0xc0ac, 0xbc15, 0xc694, 0xac15, 0xd658, 0xd658, 0xb3c4, 0xc720, 0xc575, 0xc575, 0xc694, 0xc740, 0xc2dc, 0xc740, 0xacb0,
	0xb3c8, 0xd604, 0xac00, 0xc885, 0xac81, 0xc8fc, 0xcd08, 0xc559, 0xc720, 0xacbd, 0xc0b0, 0xc774, 0xc0ac, 0xc608, 0xb9e5, 0xd734,
	0xad11, 0xc791, 0xd6a8, 0xc624, 0xac31, 0xacbd, 0xc815, 0xd76c, 0xbaa8, 0xacbd, 0xd0d1, 0xc640, 0xad6d, 0xcc2c, 0xd45c, 0xd0c1,
	0xd640, 0xb178, 0xac10, 0xad6c, 0xc720, 0xd6c4, 0xc790, 0xc2dc, 0xce58, 0xd639, 0xc591, 0xc639, 0xd610, 0xbe48, 0xc6a9, 0xb8e8,
	0xc870, 0xc0bc, 0xad50, 0xc801, 0xd718, 0xbc88, 0xd568, 0xcc2c, 0xc7a0, 0xc2e4, 0xb2ec, 0xc8fc, 0xb178, 0xd568, 0xc5ec, 0xd0c1,
	0xc720, 0xb825, 0xd655, 0xd76c, 0xc12c, 0xcc38, 0xb828, 0xd6a8, 0xc0ac, 0xc2ac, 0xbc15, 0xad6c, 0xacf5, 0xc790, 0xc6b0, 0xb871,
	0xc0ac, 0xc789, 0xb274, 0xb9e4, 0xbc1c, 0xad6c, 0xb450, 0xc220, 0xd3c9, 0xbcc0, 0xbaa8, 0xbd88, 0xc120, 0xbe44, 0xd615, 0xc774,
	0xc720, 0xad34, 0xbcd1, 0xace1, 0xbcf4, 0xd68c, 0xc5f0, 0xc804, 0xd6c4, 0xbcf4, 0xbb38, 0xb784, 0xb3c4, 0xc624, 0xc2ac, 0xb839,
	0xc900, 0xacc4, 0xc6b4, 0xcd94, 0xce74, 0xad74, 0xb300, 0xbc30, 0xbcc0, 0xc721, 0xbd95, 0xc5ed, 0xc885, 0xb784, 0xbe48, 0xc218,
	0xb3cc, 0xc124, 0xc2dc, 0xc2ec, 0xad6c, 0xc720, 0xc6b0, 0xd0c0, 0xc644, 0xacb8, 0xc900, 0xd544, 0xb3c4, 0xc2ac, 0xcc2c, 0xb3c4,
	0xc704, 0xbd09, 0xb8e8, 0xb9ac, 0xb9cc, 0xc794, 0xd544, 0xadf9, 0xc7a0, 0xd604, 0xb825, 0xb3c8, 0xb2f4, 0xc218, 0xc639, 0xcd09,
	0xb2ec, 0xc758, 0xc5ec, 0xb835, 0xae30, 0xad11, 0xd615, 0xacbd, 0xb77c, 0xc9d0, 0xb454, 0xace0, 0xc720, 0xb8b0, 0xbc15, 0xb1cc,
	0xd3b8, 0xb828, 0xd0d5, 0xb834, 0xc628, 0xb2f9, 0xb9ac, 0xc815, 0xc640, 0xcd94, 0xac15, 0xd615, 0xc559, 0xc644, 0xd33d, 0xbc31,
	0xd0c0, 0xc218, 0xc774, 0xbc31, 0xacb0, 0xace0, 0xacf5, 0xb3d9, 0xd568, 0xc131, 0xd611, 0xacfc, 0xd589, 0xc810, 0xcc28, 0xb3d9,
	0xbe44, 0xc900, 0xb835, 0xc131, 0xc6b0, 0xc81c, 0xc720, 0xc804, 0xc6a9, 0xac15, 0xb2f9, 0xc7a5, 0xd45c, 0xcc3d, 0xb85d, 0xb3d9,
	0xc815, 0xb825, 0xc0bd, 0xbc18, 0xc0ac, 0xb4f1, 0xb2f9, 0xd639, 0xc758, 0xd568, 0xc12d, 0xb77c, 0xb958, 0xac10, 0xb2f4, 0xd761,
	0xd610, 0xb2f4, 0xc0dd, 0xc0dd, 0xc720, 0xc720, 0xb0a8, 0xbb34, 0xac15, 0xc724, 0xcc99, 0xad6c, 0xc6d0, 0xb840, 0xb958, 0xb82c,
	0xd611, 0xbe44, 0xc554, 0xc5ed, 0xad6d, 0xc720, 0xc21c, 0xc9c0, 0xcc28, 0xcc38, 0xc99d, 0xc639, 0xbd80, 0xc5f0, 0xc131, 0xd734,
	0xc11c, 0xad50, 0xad50, 0xd6c4, 0xc7a5, 0xc7a5, 0xae30, 0xc218, 0xc2ec, 0xbc18, 0xae09, 0xc9c0, 0xc778, 0xace0, 0xc62c, 0xacfc,
	0xac81, 0xc220, 0xd574, 0xd0c0, 0xb3c5, 0xc790, 0xcca8, 0xbaa9, 0xbd80, 0xb839, 0xc0c9, 0xb958, 0xc120, 0xb0b4, 0xc555, 0xc560,
	0xb824, 0xb2f5, 0xc5ec, 0xc5f0, 0xb824, 0xc2e0, 0xb9ac, 0xb7c9, 0xacbd, 0xd754, 0xc0ac, 0xce68, 0xd611, 0xcc28, 0xc720, 0xbcf4,
	0xad11, 0xac01, 0xb798, 0xae08, 0xac15, 0xcd95, 0xbc30, 0xacfc, 0xc758, 0xad34, 0xc131, 0xd3b8, 0xd574, 0xcd94, 0xd669, 0xd68c,
	0xd638, 0xd3d0, 0xc624, 0xc790, 0xc0ac, 0xacc4, 0xace8, 0xc11c, 0xace0, 0xc0ac, 0xb9c8, 0xc800, 0xd1f4, 0xcd94, 0xd610, 0xb791,
	0xbc18, 0xace0, 0xce58, 0xccb4, 0xc560, 0xc120, 0xacfc, 0xc2b5, 0xc639, 0xd1f4, 0xcc38, 0xc18c, 0xd5d8, 0xac1c, 0xbd84, 0xad70,
	0xce58, 0xc57d, 0xc8fc, 0xd611, 0xb8b0, 0xc5fc, 0xb85c, 0xd1f4, 0xc601, 0xbe44, 0xb77c, 0xb824, 0xbcc4, 0xd5a5, 0xbaa8, 0xbc31,
	0xad11, 0xb450, 0xc694, 0xd560, 0xcd98, 0xd559, 0xb155, 0xc8fc, 0xb825, 0xb2f9, 0xd658, 0xbe44, 0xd30c, 0xcc45, 0xc559, 0xb2f5,
	0xc624, 0xc124, 0xc758, 0xce58, 0xb2f5, 0xc5f0, 0xbc29, 0xcd94, 0xb9cc, 0xb2ec, 0xbc15, 0xac04, 0xc5f0, 0xd61c, 0xc800, 0xc544,
	0xbc94, 0xc720, 0xc548, 0xd1f4, 0xbabd, 0xc0ac, 0xc9c4, 0xace0, 0xae30, 0xad50, 0xad50, 0xc5fc, 0xc9c4, 0xac10, 0xba74, 0xd604,
	0xc0bc, 0xc54c, 0xcc9c, 0xd658, 0xc778, 0xc778, 0xcc9c, 0xacb0, 0xacc4, 0xccb4, 0xc559, 0xb9e4, 0xb9e4, 0xbe44, 0xb3c4, 0xbe44,
	0xad6c, 0xc810, 0xc21c, 0xbe44, 0xbb34, 0xc0ad, 0xace0, 0xd64d, 0xd65c, 0xb77d, 0xd56d, 0xacb9, 0xc804, 0xd574, 0xd669, 0xbcf4,
	0xace1, 0xbd09, 0xbaa9, 0xb784, 0xc601, 0xc21c, 0xb7c9, 0xac81, 0xc81c, 0xc12c, 0xcd94, 0xbe59, 0xc9c4, 0xc5f0, 0xb3c4, 0xce58,
	0xc808, 0xb7c9, 0xd55c, 0xd45c, 0xd589, 0xb9f9, 0xc5c5, 0xbc00, 0xacc4, 0xacc4, 0xc54c, 0xd611, 0xc6b8, 0xacb9, 0xc815, 0xc694,
	0xc601, 0xc591, 0xc9d1, 0xc885, 0xd6e4, 0xbbfc, 0xb8e8, 0xac1c, 0xc694, 0xc5b8, 0xc190, 0xadc0, 0xd669, 0xc575, 0xc131, 0xcc28,
	0xb834, 0xc12c, 0xc120, 0xc120, 0xc801, 0xb2d0, 0xcc98, 0xbb18, 0xd655, 0xc5b4, 0xcc38, 0xd640, 0xce35, 0xd45c, 0xc7a0, 0xd761,
	0xd56d, 0xc6b0, 0xb9e4, 0xb9dd, 0xc804, 0xd658, 0xaca9, 0xac01, 0xb0ad, 0xbe44, 0xc11d, 0xc0ad, 0xbb35, 0xb835, 0xba78, 0xbb35,
	0xd76c, 0xcc38, 0xad6c, 0xcd08, 0xd655, 0xd55c, 0xaca9, 0xb274, 0xb3d9, 0xd6c4, 0xc5ec, 0xc720, 0xcda9, 0xbc15, 0xcc2c, 0xc870,
	0xc878, 0xc81c, 0xac08, 0xaddc, 0xd589, 0xd6fc, 0xc11d, 0xad74, 0xcc28, 0xc11d, 0xd6a8, 0xc5ec, 0xbc29, 0xd0c0, 0xc11d, 0xac00,
	0xc2dc, 0xc9c0, 0xb3d9, 0xc790, 0xbd80, 0xbbfc, 0xc9c4, 0xc9c4, 0xcc28, 0xc5f0, 0xad50, 0xd64d, 0xacf5, 0xad50, 0xb7b5, 0xad34,
	0xb78d, 0xc608, 0xac81, 0xc88c, 0xc5f0, 0xacf5, 0xac81, 0xad34, 0xad35, 0xc0c9, 0xc640, 0xc815, 0xb148, 0xb3c4, 0xb798, 0xb2f5,
	0xcc44, 0xc544, 0xace4, 0xac15, 0xacbd, 0xc81c, 0xae30, 0xba74, 0xac1c, 0xbbfc, 0xc800, 0xc720, 0xc778, 0xb300, 0xcc28, 0xc131,
	0xb3cc, 0xbc18, 0xd575, 0xad6c, 0xd64d, 0xb85c, 0xc624, 0xbc15, 0xac31, 0xb85d, 0xcd09, 0xb828, 0xc608, 0xad50, 0xc219, 0xc0b0,
	0xc120, 0xc7a0, 0xae08, 0xd6fc, 0xc219, 0xb2f9, 0xb3c8, 0xb96d, 0xac15, 0xb1e8, 0xb2e8, 0xb2f4, 0xc678, 0xac10, 0xb2ec, 0xb825,
	0xcc30, 0xc12c, 0xbc18, 0xb78d, 0xc800, 0xb1e8, 0xad34, 0xc601, 0xc12c, 0xb780, 0xb9c8, 0xd30c, 0xbcf5, 0xada4, 0xbe44, 0xbd80,
	0xd654, 0xc608, 0xb958, 0xc559, 0xc778, 0xad8c, 0xd65c, 0xc815, 0xb450, 0xc544, 0xc9c0, 0xc5c4, 0xcca0, 0xc790, 0xae30, 0xc694,
	0xad8c, 0xd65c, 0xc784, 0xd669, 0xad6c, 0xc0ac, 0xc218, 0xc5f0, 0xd33d, 0xba85, 0xc870, 0xb8e8, 0xb9ac, 0xcc3d, 0xc81c, 0xccb4,
	0xc120, 0xcca8, 0xc81c, 0xb3c5, 0xb8b0, 0xb839, 0xb8cc, 0xc789, 0xc6b0, 0xc775, 0xcd08, 0xae30, 0xc774, 0xb144, 0xbd80, 0xacac,
	0xc544, 0xbc29, 0xb15c, 0xc120, 0xc6d4, 0xb144, 0xd544, 0xc11d, 0xbc15, 0xcc9c, 0xc81c, 0xb3c4, 0xcca8, 0xc120, 0xc6a9, 0xc608,
	0xb82c, 0xc548, 0xd559, 0xacf5, 0xb840, 0xaddc, 0xce58, 0xc18d, 0xc6d0, 0xc544, 0xc885, 0xb9cc, 0xacac, 0xc815, 0xc720, 0xbbf8,
	0xacac, 0xc720, 0xb9dd, 0xad6c, 0xce58, 0xac70, 0xc554, 0xc720, 0xb798, 0xd63c, 0xad8c, 0xcc3d, 0xd0c0, 0xacf5, 0xb291, 0xc0bc,
	0xc81c, 0xc218, 0xcd94, 0xd669, 0xc9d1, 0xac08, 0xbb18, 0xc5fc, 0xd5a5, 0xc9c0, 0xada4, 0xc218, 0xc560, 0xbc29, 0xcc3d, 0xb2f9,
	0xc740, 0xc628, 0xae30, 0xcd94, 0xc0ad, 0xc791, 0xb204, 0xb3c4, 0xc2e0, 0xb8e8, 0xd45c, 0xb9ac, 0xb9cc, 0xd615, 0xc7a0, 0xd654,
	0xb9e4, 0xace0, 0xb834, 0xb3c4, 0xc120, 0xc790, 0xc870, 0xbd09, 0xce58, 0xd30c, 0xbbf8, 0xcd94, 0xc608, 0xb871, 0xc12c, 0xbe44,
	0xad6d, 0xc815, 0xad6c, 0xc5f0, 0xcda9, 0xc5f4, 0xad49, 0xc694, 0xc555, 0xc694, 0xb3d9, 0xd0c0, 0xc720, 0xd608, 0xc694, 0xd569,
	0xd658, 0xb791, 0xc5f4, 0xc2e0, 0xcc9c, 0xcc9c, 0xb2f4, 0xc640, 0xb155, 0xba85, 0xd64d, 0xcc3d, 0xc6b4, 0xd5cc, 0xce68, 0xcd2c,
	0xc6b0, 0xb2f4, 0xac15, 0xc218, 0xc870, 0xc815, 0xcd94, 0xd608, 0xc815, 0xcd1d, 0xbc18, 0xaddc, 0xacfc, 0xac70, 0xb78c, 0xc608,
	0xc6a9, 0xc0ac, 0xac74, 0xc0ac, 0xd758, 0xbc8c, 0xb450, 0xb9f9, 0xc131, 0xb9bd, 0xad11, 0xd574, 0xcd08, 0xcd09, 0xc791, 0xd1f4,
	0xb9ac, 0xbe44, 0xac1c, 0xc218, 0xb77c, 0xc218, 0xc6b4, 0xc885, 0xd638, 0xc778, 0xbcf5, 0xc9c0, 0xac80, 0xcca8, 0xac10, 0xac74,
	0xc8fc, 0xc800, 0xace0, 0xb151, 0xc608, 0xcc29, 0xc559, 0xccb4, 0xacf5, 0xc608, 0xce58, 0xae30, 0xcd94, 0xb85c, 0xc784, 0xc6a9,
	0xc99d, 0xb78d, 0xd611, 0xc804, 0xc11c, 0xc740, 0xac01, 0xbcc4, 0xc815, 0xade0, 0xb450, 0xbbf8, 0xc74d, 0xc81c, 0xc5b8, 0xcc45,
	0xc0b0, 0xb95c, 0xbcd1, 0xc18c, 0xd568, 0xd655, 0xb300, 0xc870, 0xbe44, 0xc0bd, 0xb989, 0xb2f5, 0xc800, 0xb9f9, 0xc5fd, 0xbcf5,
	0xad34, 0xacfc, 0xb0a8, 0xac08, 0xac00, 0xc2dc, 0xacfc, 0xc1c4, 0xc790, 0xc8fc, 0xd0dc, 0xad34, 0xce68, 0xc11c, 0xb3c5, 0xce21,
	0xc6d0, 0xcd1d, 0xc0c8, 0xc815, 0xacb8, 0xadfc, 0xc885, 0xc704, 0xd55c, 0xac80, 0xaca9, 0xb0a9, 0xd3ec, 0xc218, 0xad6c, 0xc9c4,
	0xc18c, 0xb3c4, 0xbc18, 0xd0d1, 0xacb8, 0xc639, 0xc6a9, 0xb77d, 0xace1, 0xc218, 0xc885, 0xd3ec, 0xba78, 0xadfc, 0xcd08, 0xba71,
	0xc11c, 0xb839, 0xb8e8, 0xc7a5, 0xb989, 0xc9d1, 0xc870, 0xc2ec, 0xc0b0, 0xace0, 0xbc18, 0xbbf8, 0xc218, 0xac04, 0xb2f9, 0xd574,
	0xace0, 0xbb34, 0xbc88, 0xb77c, 0xcc2c, 0xc99d, 0xb839, 0xc74d, 0xc0c1, 0xc6b4, 0xb9f9, 0xc6b1, 0xce58, 0xc758, 0xb2f4, 0xd655,
	0xbbf8, 0xb2e8, 0xc0c9, 0xc0ac, 0xc218, 0xcd1d, 0xcc9c, 0xb958, 0xc758, 0xad6c, 0xb8b0, 0xb824, 0xd3d0, 0xb835, 0xb9b0, 0xd55c,
	0xd6a8, 0xc6b0, 0xbbf8, 0xc120, 0xc591, 0xcc2c, 0xc30d, 0xc5c4, 0xbcc0, 0xb839, 0xd64d, 0xae30, 0xb8cc, 0xbc18, 0xbe44, 0xd638,
	0xd638, 0xc2e0, 0xc0c9, 0xd328, 0xacf5, 0xba85, 0xad6c, 0xd3ec, 0xb9e4, 0xc0bc, 0xbbf8, 0xc7a5, 0xbe44, 0xb9ac, 0xad8c, 0xc0bc,
	0xd63c, 0xd5a5, 0xc815, 0xc2dc, 0xc601, 0xac74, 0xb0a8, 0xd669, 0xc8fc, 0xc5f0, 0xd1f4, 0xc0b4, 0xb2e8, 0xc2e4, 0xc801, 0xbb38,
	0xd76c, 0xb9cc, 0xc7a5, 0xd669, 0xb2f4, 0xc18c, 0xc5f4, 0xbe44, 0xb77c, 0xbc18, 0xb824, 0xcd5c, 0xcc28, 0xb3c4, 0xc801, 0xad11,
	0xc800, 0xc12c, 0xc0b0, 0xbbf8, 0xacb8, 0xad6c, 0xc9c4, 0xce58, 0xc6b0, 0xc12c, 0xd638, 0xac10, 0xce58, 0xacb0, 0xbaa9, 0xbd80,
	0xd638, 0xacbd, 0xd6a8, 0xbaa8, 0xb9dd, 0xc6b0, 0xd638, 0xcc99, 0xb140, 0xd608, 0xc815, 0xbbfc, 0xacac, 0xc544, 0xd0c4, 0xc791,
	0xc6d4, 0xbcd1, 0xc11c, 0xcd94, 0xbc30, 0xc784, 0xc728, 0xacac, 0xcd94, 0xc774, 0xc775, 0xbbf8, 0xacc4, 0xc601, 0xb9dd, 0xae30,
	0xbcf4, 0xc11c, 0xbcc4, 0xbc88, 0xc57d, 0xb9ac, 0xbc88, 0xad6c, 0xbd80, 0xc544, 0xc544, 0xc7c1, 0xcca8, 0xc721, 0xae08, 0xacc4,
	0xad6d, 0xb798, 0xc2b9, 0xbc30, 0xb274, 0xc608, 0xc218, 0xbb34, 0xc21c, 0xd3ed, 0xcd94, 0xb2d8, 0xc815, 0xbd09, 0xc790, 0xc678,
	0xacfc, 0xc694, 0xc6b0, 0xcd08, 0xacbd, 0xb2f9, 0xadc0, 0xc0ad, 0xd0d1, 0xac15, 0xc694, 0xb2f5, 0xcca9, 0xadfc, 0xb7b5, 0xbc00,
	0xba71, 0xacac, 0xb85d, 0xbc88, 0xc6b0, 0xbbf8, 0xc9d1, 0xbb34, 0xbcc4, 0xd669, 0xc18d, 0xc694, 0xc5c5, 0xae08, 0xb834, 0xbcbd,
	0xac10, 0xccb4, 0xb839, 0xcc2c, 0xc2dc, 0xc740, 0xb3c4, 0xc8fc, 0xcc44, 0xba78, 0xc5fc, 0xb78c, 0xc911, 0xcd08, 0xc0c1, 0xad8c,
	0xb151, 0xb77c, 0xd6c8, 0xc2dc, 0xb77c, 0xcd09, 0xce58, 0xc8fc, 0xacac, 0xacbd, 0xc774, 0xc775, 0xd0dc, 0xcc44, 0xb2d8, 0xd3ed,
	0xb78c, 0xc218, 0xc6b0, 0xc694, 0xc810, 0xb839, 0xc800, 0xb2f5, 0xbcd1, 0xc7ac, 0xad50, 0xc218, 0xbd80, 0xbd80, 0xcc9c, 0xb9dd,
	0xd55c, 0xd55c, 0xbd80, 0xc544, 0xd6a1, 0xc800, 0xd3ec, 0xd604, 0xbbf8, 0xb9e4, 0xb791, 0xace0, 0xc870, 0xb2f5, 0xc5ed, 0xc885,
	0xb9ac, 0xb85d, 0xbb34, 0xb8b0, 0xc81c, 0xb825, 0xb9ac, 0xc7a5, 0xbc1c, 0xc591, 0xb9d0, 0xd0c0, 0xd3c9, 0xc7a5, 0xc870, 0xada4,
	0xc778, 0xc11c, 0xc608, 0xacb0, 0xc704, 0xc7c1, 0xb3d9, 0xc704, 0xbc15, 0xc804, 0xd658, 0xc120, 0xc7a0, 0xb825, 0xc5f0, 0xd669,
	0xd6e8, 0xd638, 0xd3ec, 0xc5fc, 0xcd08, 0xbc15, 0xb8cc, 0xc8fc, 0xc608, 0xd73c, 0xb77d, 0xace0, 0xcd09, 0xbd80, 0xb151, 0xd568,
	0xcd08, 0xb85d, 0xc794, 0xb2f5, 0xbd80, 0xd6a1, 0xc99d, 0xad50, 0xc219, 0xbe48, 0xd61c, 0xae30, 0xd63c, 0xc800, 0xc791, 0xc774,
	0xc774, 0xb09c, 0xac78, 0xc0ac, 0xad6d, 0xace1, 0xc5fc, 0xbd80, 0xc5c5, 0xce58, 0xb291, 0xcc3d, 0xd30c, 0xc870, 0xccb4, 0xd55c,
	0xc791, 0xd30c, 0xc744, 0xc6d4, 0xac31, 0xbe44, 0xc774, 0xc8fc, 0xc624, 0xbb38, 0xc81c, 0xc8fc, 0xb85d, 0xbb38, 0xace4, 0xcd94,
	0xb784, 0xc7ac, 0xc218, 0xba85, 0xc9c8, 0xccb4, 0xc870, 0xd45c, 0xb828, 0xc2b5, 0xb871, 0xc219, 0xd758, 0xc6d0, 0xd48d, 0xd6c4,
	0xacb0, 0xc790, 0xd3b8, 0xad00, 0xb274, 0xc784, 0xc778, 0xac1c, 0xd544, 0xd0d0, 0xbb18, 0xc21c, 0xae09, 0xc804, 0xb9d0, 0xbcc4,
	0xae09, 0xc2dc, 0xd53c, 0xc800, 0xc0ac, 0xd0d0, 0xcca8, 0xce58, 0xd1f4, 0xd611, 0xc774, 0xd734, 0xbb34, 0xc8fc, 0xd611, 0xc9c0,
	0xc778, 0xad6d, 0xc81c, 0xc808, 0xc18c, 0xbabd, 0xd53c, 0xd55c, 0xc5b4, 0xd604, 0xbc29, 0xb2a5, 0xc794, 0xbd80, 0xbc29, 0xacc4,
	0xae30, 0xb3c5, 0xb85d, 0xade0, 0xd568, 0xd76c, 0xcc44, 0xc21c, 0xc9c1, 0xce58, 0xd63c, 0xcd1d, 0xc804, 0xcd94, 0xc81c, 0xc900,
	0xcd94, 0xc811, 0xcc28, 0xc720, 0xbcc0, 0xc9d1, 0xd788, 0xc800, 0xac01, 0xaca9, 0xc989, 0xb2f5, 0xc9c4, 0xc1a8, 0xc57d, 0xad6c,
	0xd669, 0xc81c, 0xcd94, 0xc190, 0xcc28, 0xc639, 0xac11, 0xd638, 0xace1, 0xac1c, 0xc804, 0xc885, 0xc870, 0xccb4, 0xc0b0, 0xb8b0,
	0xc218, 0xcc44, 0xc811, 0xc5b4, 0xac1c, 0xd669, 0xc7a0, 0xb2e8, 0xd68d, 0xc218, 0xb2f4, 0xace0, 0xd608, 0xb9cc, 0xd0c1, 0xc624,
	0xbcbd, 0xc625, 0xc5ec, 0xbabd, 0xbe44, 0xbabd, 0xc591, 0xc9c8, 0xbc15, 0xc601, 0xc720, 0xc591, 0xb780, 0xc601, 0xcc38, 0xad8c,
	0xc9c4, 0xbcf5, 0xc778, 0xb300, 0xbc8c, 0xc11c, 0xcca9, 0xd0d5, 0xcc28, 0xb2f4, 0xcca8, 0xc9c0, 0xd0d1, 0xac00, 0xc21c, 0xd669,
	0xb8cc, 0xcc28, 0xc62c, 0xce68, 0xae08, 0xc555, 0xad6c, 0xbd80, 0xd0c0, 0xace0, 0xc555, 0xd33d, 0xb3c4, 0xc81c, 0xd0c0, 0xc81c,
	0xbcf4, 0xc6d0, 0xb3c4, 0xb95c, 0xae30, 0xbaa9, 0xcc9c, 0xacac, 0xc885, 0xc18c, 0xbc94, 0xc720, 0xcd94, 0xd0d1, 0xcc99, 0xc219,
	0xbd80, 0xc2b5, 0xc7a5, 0xc870, 0xbd80, 0xb4f1, 0xcca0, 0xbd80, 0xbe44, 0xbb34, 0xd61c, 0xc559, 0xba85, 0xbc29, 0xb9dd, 0xc2b9,
	0xbabd, 0xcd08, 0xc870, 0xac1c, 0xbc30, 0xc18c, 0xc2e0, 0xac78, 0xc218, 0xc0c1, 0xc18c, 0xd658, 0xc6b0, 0xd6a8, 0xce68, 0xb2e8,
	0xbd09, 0xc778, 0xc559, 0xc5fc, 0xc77c, 0xb9cc, 0xbc94, 0xac70, 0xc2dc, 0xd654, 0xbcc0, 0xb300, 0xb9c9, 0xb4f1, 0xbc94, 0xd658,
	0xad11, 0xc99d, 0xcc28, 0xd0c0, 0xc720, 0xd638, 0xcc9c, 0xad04, 0xd608, 0xb8b0, 0xadfc, 0xae30, 0xace1, 0xb9dd, 0xc758, 0xb8cc,
	0xae38, 0xb4f1, 0xc5b8, 0xc74d, 0xc740, 0xae30, 0xc808, 0xd601, 0xc5ed, 0xc57c, 0xc624, 0xc9c0, 0xc9c0, 0xd55c, 0xcc29, 0xbd80,
	0xc21c, 0xd3c9, 0xad34, 0xc8fc, 0xd6a8, 0xc6d0, 0xad81, 0xcd1d, 0xace0, 0xad34, 0xc11c, 0xad74, 0xc9c0, 0xb9f9, 0xb824, 0xc8fc,
	0xb2f5, 0xc9c0, 0xace0, 0xb7c9, 0xd640, 0xb784, 0xc804, 0xadf9, 0xbd80, 0xc9c0, 0xc5ed, 0xae30, 0xd0c1, 0xcc30, 0xbb34, 0xb3c5,
	0xc778, 0xc2dc, 0xc608, 0xd55c, 0xc5f0, 0xbd80, 0xb784, 0xd589, 0xac04, 0xc758, 0xbbf8, 0xad6c, 0xb9dd, 0xae30, 0xc0ac, 0xd568,
	0xc720, 0xb960, 0xc790, 0xc870, 0xc694, 0xac00, 0xb9ac, 0xae30, 0xacf5, 0xb825, 0xbcd1, 0xc0ac, 0xace0, 0xb9c8, 0xc18d, 0xcd94,
	0xc804, 0xc0ac, 0xbc30, 0xd5c8, 0xacbd, 0xd3ec, 0xb989, 0xc0c1, 0xc870, 0xc870, 0xc21c, 0xacbd, 0xb2f4, 0xc790, 0xb960, 0xc774,
	0xc18c, 0xc5b4, 0xd654, 0xb824, 0xd30c, 0xc18c, 0xb9e4, 0xb824, 0xc639, 0xc18d, 0xc0c1, 0xc18c, 0xc774, 0xb155, 0xc0ac, 0xace0,
	0xbd80, 0xc74d, 0xb4f1, 0xc5f0, 0xcd5c, 0xac04, 0xc81c, 0xae08, 0xd45c, 0xc218, 0xc218, 0xb3c8, 0xc0bd, 0xc560, 0xc54c, 0xc900,
	0xad00, 0xbe44, 0xc6d0, 0xc74c, 0xc99d, 0xc18c, 0xb450, 0xd68c, 0xcca9, 0xd0dd, 0xb2e8, 0xb2f9, 0xce58, 0xc608, 0xbcf5, 0xc560,
	0xbcf5, 0xc218, 0xac00, 0xcc30, 0xd568, 0xb9cc, 0xc190, 0xbe44, 0xb839, 0xc808, 0xada4, 0xd611, 0xcde8, 0xce6d, 0xb791, 0xd765,
	0xd3d0, 0xb824, 0xc790, 0xd560, 0xae30, 0xb2c8, 0xc601, 0xd6a8, 0xb4f1, 0xb8cc, 0xd0dd, 0xae30, 0xac15, 0xc12c, 0xad6d, 0xd45c,
	0xbc88, 0xb450, 0xb984, 0xbbf8, 0xcc29, 0xd608, 0xd638, 0xbbf8, 0xd560, 0xc7a1, 0xcd1d, 0xb824, 0xc5f0, 0xcd09, 0xc5c4, 0xd55c,
	0xd6a8, 0xc5b5, 0xb780, 0xc57d, 0xc5f0, 0xb839, 0xc591, 0xc6b8, 0xd559, 0xd6c4, 0xc608, 0xd559, 0xc5ed, 0xac74, 0xd569, 0xcc98,
	0xc740, 0xba71, 0xd76c, 0xb0a0, 0xd568, 0xcc28, 0xd569, 0xc554, 0xb3c4, 0xc81c, 0xc624, 0xc0ad, 0xc740, 0xcda9, 0xc8fc, 0xb9f9,
	0xc6d0, 0xb275, 0xbb18, 0xc870, 0xc6d0, 0xbaa8, 0xad74, 0xb0a0, 0xc11d, 0xd544, 0xc790, 0xbc29, 0xac11, 0xad8c, 0xd5a5, 0xaddc,
	0xd328, 0xad11, 0xc21c, 0xcc28, 0xc694, 0xace4, 0xd68c, 0xd76c, 0xc544, 0xc591, 0xc870, 0xb958, 0xac01, 0xb9ac, 0xc644, 0xb9ac,
	0xc99d, 0xae30, 0xd638, 0xc794, 0xbd80, 0xc7a5, 0xad00, 0xad6d, 0xb9f9, 0xcc3d, 0xb2f4, 0xbaa8, 0xc131, 0xb824, 0xc5f0, 0xc218,
	0xc2dc, 0xc2b5, 0xbcd1, 0xcd1d, 0xd6c4, 0xc6d0, 0xccb4, 0xacac, 0xac11, 0xd55c, 0xbc15, 0xc218, 0xb958, 0xc7a0, 0xc7a0, 0xc608,
	0xc120, 0xc5b8, 0xc870, 0xac10, 0xc6a9, 0xc885, 0xbd09, 0xac15, 0xc5b4, 0xcc99, 0xc790, 0xb9c8, 0xbd09, 0xd658, 0xc0c1, 0xc9c4,
	0xad00, 0xbcf5, 0xb9b0, 0xb4f1, 0xc815, 0xac15, 0xb78d, 0xc5b5, 0xc639, 0xc790, 0xc5f0, 0xc808, 0xd6c8, 0xc720, 0xd604, 0xb155,
	0xbd80, 0xc808, 0xc810, 0xbb35, 0xc800, 0xb2a5, 0xd5cc, 0xbb38, 0xb824, 0xc7a0, 0xba78, 0xc810, 0xb2d0, 0xcc44, 0xb9cc, 0xd73c,
	0xb275, 0xb9e5, 0xcd5c, 0xac10, 0xac1d, 0xd56d, 0xd568, 0xd718, 0xc18c, 0xc704, 0xc878, 0xae30, 0xac74, 0xc775, 0xb9c8, 0xc870,
	0xbc1c, 0xbe44, 0xc800, 0xc790, 0xcd9c, 0xac11, 0xb2c8, 0xc559, 0xad50, 0xc21c, 0xcda9, 0xb140, 0xc735, 0xc9c0, 0xc0c1, 0xcd08,
	0xc120, 0xc720, 0xce68, 0xae08, 0xc885, 0xb85d, 0xd568, 0xbcc4, 0xc561, 0xc26c, 0xd0c4, 0xc721, 0xc6d0, 0xc608, 0xad00, 0xad74,
	0xd33d, 0xc794, 0xc885, 0xd0c0, 0xc7a1, 0xc694, 0xacc4, 0xc5f0, 0xd6c4, 0xc21c, 0xb300, 0xc120, 0xad34, 0xbe44, 0xd61c, 0xbc15,
	0xaca9, 0xcd5c, 0xcd95, 0xd53c, 0xad6c, 0xc885, 0xbd95, 0xccb4, 0xcd95, 0xc9c0, 0xb1e8, 0xace4, 0xbd09, 0xc124, 0xb4f1, 0xc704,
	0xad90, 0xadc0, 0xc99d, 0xc0bd, 0xd0c0, 0xb839, 0xbabd, 0xd6c8, 0xacfc, 0xbabd, 0xbc18, 0xae30, 0xc601, 0xac74, 0xad00, 0xcd95,
	0xb9ac, 0xcd09, 0xc120, 0xd45c, 0xc120, 0xaddc, 0xb18d, 0xb4dd, 0xb4dd, 0xc774, 0xb834, 0xc790, 0xc18c, 0xd608, 0xc2dc, 0xbbf8,
	0xce68, 0xce68, 0xd601, 0xc720, 0xb85d, 0xb798, 0xc601, 0xc0dd, 0xacac, 0xacc4, 0xacac, 0xc6b4, 0xace0, 0xc801, 0xcc3d, 0xb9b0,
	0xc801, 0xb9e4, 0xb2f9, 0xc2ec, 0xbe48, 0xb9ac, 0xc131, 0xac15, 0xd615, 0xd6e4, 0xc120, 0xace1, 0xbe44, 0xc878, 0xb300, 0xb300,
	0xd63c, 0xc0c8, 0xcca0, 0xc81c, 0xc6b0, 0xc57d, 0xce58, 0xb958, 0xbc1c, 0xad50, 0xd658, 0xd601, 0xb9b0, 0xd6e4, 0xc789, 0xd604,
	0xbe44, 0xc2e0, 0xc0b0, 0xce58, 0xc648, 0xb450, 0xcc9c, 0xd61c, 0xd574, 0xbe44, 0xc694, 0xc694, 0xb275, 0xd638, 0xc784, 0xc74c,
	0xbc18, 0xc5fc, 0xc774, 0xc644, 0xc6d0, 0xd569, 0xc8fc, 0xc5f0, 0xc2dc, 0xba74, 0xd61c, 0xc790, 0xd3ec, 0xbe44, 0xd608, 0xb2c8,
	0xc0ac, 0xbc00, 0xbcc0, 0xac10, 0xb098, 0xc720, 0xc608, 0xae30, 0xc784, 0xd735, 0xb7b5, 0xd68c, 0xc2e0, 0xb178, 0xd55c, 0xacb9,
	0xd22c, 0xd654, 0xb3c5, 0xbe59, 0xcd09, 0xd76c, 0xc1a1, 0xbbf8, 0xc2e0, 0xc624, 0xad81, 0xc7a5, 0xb3c4, 0xd589, 0xad6c, 0xac70,
	0xd63c, 0xc81c, 0xba74, 0xc5c4, 0xae30, 0xc218, 0xb8b0, 0xc6d0, 0xc810, 0xd604, 0xacc4, 0xc720, 0xd6fc, 0xc0bd, 0xc18c, 0xaca9,
	0xb178, 0xd61c, 0xace0, 0xd1f4, 0xc9c0, 0xc720, 0xb9c8, 0xace4, 0xcd08, 0xce60, 0xc870, 0xd68c, 0xb828, 0xb8cc, 0xb85c, 0xd0c0,
	0xc218, 0xc624, 0xc624, 0xc12d, 0xc218, 0xb9e4, 0xb2f4, 0xd760, 0xacbd, 0xc555, 0xb2f5, 0xcc38, 0xc608, 0xb2e8, 0xc81c, 0xcc38,
	0xc9c8, 0xc6b1, 0xd5cc, 0xd754, 0xacf5, 0xb2e8, 0xc21c, 0xb178, 0xd658, 0xc5f0, 0xad6c, 0xd64d, 0xc218, 0xc608, 0xb85c, 0xad6d,
	0xd638, 0xb9cc, 0xb835, 0xb454, 0xcd94, 0xc2dc, 0xd56d, 0xce68, 0xb9e4, 0xc18c, 0xcc45, 0xc2dc, 0xbaa9, 0xc720, 0xc74c, 0xc218,
	0xb958, 0xb85c, 0xc218, 0xc811, 0xc30d, 0xd68c, 0xd640, 0xd68c, 0xc561, 0xbabd, 0xc0bd, 0xc885, 0xacb0, 0xad70, 0xb2e8, 0xb8e8,
	0xc218, 0xcda9, 0xcd94, 0xb835, 0xd658, 0xc811, 0xc870, 0xd734, 0xc758, 0xcd94, 0xb2c8, 0xd30c, 0xc0b0, 0xc758, 0xd638, 0xc124,
	0xd658, 0xb9cc, 0xb9cc, 0xac70, 0xb8cc, 0xd638, 0xc911, 0xbbfc, 0xd604, 0xc9c4, 0xc18c, 0xc791, 0xc8fc, 0xad6c, 0xd604, 0xc774,
	0xce58, 0xd611, 0xc2e0, 0xc794, 0xc7ac, 0xd3ec, 0xb7c9, 0xc9c0, 0xae30, 0xc644, 0xad00, 0xac70, 0xccad, 0xc560, 0xbd80, 0xadc0,
	0xd6c4, 0xc5b8, 0xc5f0, 0xce58, 0xd45c, 0xc774, 0xc1c4, 0xc9c0, 0xadc0, 0xc789, 0xc608, 0xce5c, 0xcca8, 0xccad, 0xcc3d, 0xc0ac,
	0xcd98, 0xd64d, 0xb3d9, 0xc815, 0xbbf8, 0xc720, 0xc18d, 0xcc44, 0xae00, 0xc7a1, 0xae30, 0xc624, 0xbd80, 0xc625, 0xbd88, 0xbc31,
	0xcc99, 0xb2e8, 0xc791, 0xcc28, 0xad6c, 0xc720, 0xaca9, 0xd6c4, 0xaddc, 0xd761, 0xc7a5, 0xc6b4, 0xd22c, 0xc900, 0xb3c4, 0xbd80,
	0xcc45, 0xd639, 0xc6d4, 0xbcf5, 0xc870, 0xcca0, 0xcc99, 0xad74, 0xbd80, 0xd669, 0xcd98, 0xc6a9, 0xcc2c, 0xc0c9, 0xce58, 0xac74,
	0xce58, 0xcd08, 0xbb38, 0xcc38, 0xcc45, 0xc7a0, 0xd544, 0xae30, 0xc9c8, 0xcd09, 0xac70, 0xc810, 0xae38, 0xbcc0, 0xcc2c, 0xb825,
	0xb825, 0xc57d, 0xad8c, 0xc815, 0xbd80, 0xcc28, 0xc9c0, 0xc2dc, 0xd56d, 0xc808, 0xae30, 0xbc1c, 0xb20c, 0xd22c, 0xc8fc, 0xcd09,
	0xc6d4, 0xc9c0, 0xc804, 0xcd9c, 0xbcc4, 0xbabd, 0xbc1c, 0xc804, 0xbbfc, 0xac01, 0xbc94, 0xc7c1, 0xad6c, 0xc870, 0xbcf5, 0xad04,
	0xd568, 0xc801, 0xcda9, 0xc6b0, 0xc9c4, 0xad6c, 0xc88c, 0xccb4, 0xaddc, 0xb82c, 0xd328, 0xb3c4, 0xbb34, 0xc18c, 0xcca0, 0xb85d,
	0xcc3d, 0xc81c, 0xcd08, 0xb7c9, 0xc804, 0xace4, 0xc7a5, 0xad74, 0xb3cc, 0xd658, 0xbe44, 0xbe44, 0xb2f5, 0xd558, 0xc545, 0xacc4,
	0xaca9, 0xaddc, 0xd638, 0xcd94, 0xc218, 0xcc44, 0xc790, 0xd749, 0xd3d0, 0xbc29, 0xc640, 0xc694, 0xc6a9, 0xd6c8, 0xcd95, 0xcca9,
	0xccb4, 0xcc28, 0xbabd, 0xc120, 0xd0c0, 0xbcc4, 0xc9c0, 0xc800, 0xcca8, 0xada4, 0xb2e8, 0xc8fc, 0xb4f1, 0xb8b0, 0xb4f1, 0xc57d,
	0xad8c, 0xcd09, 0xb839, 0xce5c, 0xce5c, 0xbd80, 0xc0ac, 0xc870, 0xacfc, 0xd574, 0xbb38, 0xad81, 0xc218, 0xd574, 0xc12c, 0xc678,
	0xc804, 0xb871, 0xad6c, 0xb960, 0xada4, 0xcd98, 0xc6a9, 0xc6d4, 0xad50, 0xac15, 0xbc18, 0xae30, 0xad49, 0xbd80, 0xb85c, 0xad49,
	0xd0c0, 0xbbfc, 0xc804, 0xacac, 0xacc4, 0xc99d, 0xac31, 0xacf5, 0xc804, 0xb791, 0xbaa8, 0xc5ed, 0xb959, 0xc6d0, 0xad6d, 0xbe44,
	0xac31, 0xd574, 0xd3b8, 0xd63c, 0xc800, 0xc6a9, 0xc0c1, 0xc624, 0xcc28, 0xc9c4, 0xc120, 0xbd09, 0xb9cc, 0xc218, 0xc885, 0xcd1d,
	0xac31, 0xc804, 0xc0b0, 0xc2dc, 0xcda9, 0xc218, 0xbe44, 0xac1c, 0xba78, 0xc9c0, 0xc608, 0xbbfc, 0xb839, 0xcc2c, 0xc5bc, 0xb839,
	0xd758, 0xc6d4, 0xb9bd, 0xc608, 0xc2dc, 0xc2e0, 0xc6a9, 0xc6a9, 0xd68c, 0xb18d, 0xc720, 0xae30, 0xbc1c, 0xbc29, 0xae30, 0xb450,
	0xc870, 0xc81c, 0xad50, 0xc6b0, 0xd569, 0xd73c, 0xc728, 0xace1, 0xc218, 0xd328, 0xac31, 0xd615, 0xadc0, 0xc544, 0xc220, 0xc720,
	0xc1a1, 0xc12d, 0xcc3d, 0xc694, 0xc220, 0xc5f0, 0xc194, 0xb8cc, 0xc885, 0xc5b4, 0xad50, 0xc218, 0xcc9c, 0xc120, 0xb8b0, 0xb9b0,
	0xc801, 0xb3c5, 0xc641, 0xae30, 0xcc9c, 0xc6b4, 0xbc29, 0xb2e8, 0xc800, 0xac70, 0xcd9c, 0xc2e0, 0xacf5, 0xd56d, 0xc120, 0xc548,
	0xada4, 0xc6b0, 0xb8b0, 0xc0ac, 0xb3c4, 0xc2e0, 0xd615, 0xad6c, 0xd56d, 0xc0ac, 0xb2f9, 0xcc44, 0xc800, 0xc5c4, 0xce58, 0xacf5,
	0xc601, 0xc804, 0xada4, 0xb824, 0xc1c4, 0xb9c8, 0xb9c8, 0xace0, 0xb2f9, 0xbc30, 0xb8e8, 0xce60, 0xcc28, 0xb3c4, 0xc545, 0xc7a0,
	0xc7a0, 0xc758, 0xc801, 0xb2f9, 0xacfd, 0xbe44, 0xb958, 0xc775, 0xc21c, 0xc900, 0xbc1c, 0xb9ac, 0xacfc, 0xc8fc, 0xbc1c, 0xcd94,
	0xac39, 0xd6c4, 0xbc18, 0xc0ac, 0xd6c4, 0xc774, 0xad04, 0xc800, 0xc5fc, 0xbc8c, 0xacac, 0xd568, 0xb7c9, 0xc9c0, 0xba71, 0xc6b0,
	0xc57d, 0xc2ec, 0xb9e4, 0xc74c, 0xba74, 0xd22c, 0xaddc, 0xc218, 0xd61c, 0xbc00, 0xc6a9, 0xc6b1, 0xcc3d, 0xb9cc, 0xade4, 0xbe44,
	0xc7a0, 0xc655, 0xae30, 0xbabd, 0xc810, 0xd559, 0xd3ec, 0xac10, 0xcc38, 0xb825, 0xb9ac, 0xad6c, 0xb454, 0xad81, 0xc724, 0xce68,
	0xc9c0, 0xc5fc, 0xbcc4, 0xd638, 0xac1c, 0xada4, 0xc6d4, 0xd68c, 0xbcbd, 0xd0c0, 0xd0c0, 0xcc38, 0xc0ac, 0xc2dd, 0xc12d, 0xd615,
	0xd615, 0xc11c, 0xc801, 0xc57c, 0xd568, 0xbe44, 0xc5c5, 0xc5b8, 0xcd1d, 0xc218, 0xadfc, 0xd0c0, 0xc120, 0xad00, 0xb3c4, 0xacb0,
	0xcc9c, 0xd568, 0xbabd, 0xc545, 0xc870, 0xae08, 0xae08, 0xc0bc, 0xb9dd, 0xc6d0, 0xcc3d, 0xd33d, 0xc99d, 0xc9c0, 0xc21c, 0xc5b4,
	0xbb34, 0xb9d8, 0xac15, 0xae30, 0xc18d, 0xbcc4, 0xc804, 0xad00, 0xcc29, 0xc218, 0xcd08, 0xacb0, 0xd55c, 0xc624, 0xad50, 0xc54c,
	0xce68, 0xcca9, 0xb96d, 0xcc29, 0xbc15, 0xb834, 0xc218, 0xc120, 0xb824, 0xbbf8, 0xd604, 0xcca0, 0xbc15, 0xc99d, 0xcd95, 0xd30c,
	0xb9f9, 0xc0ac, 0xad6c, 0xc6b0, 0xc900, 0xd6a8, 0xb825, 0xcc30, 0xbbf8, 0xc124, 0xc57c, 0xbb34, 0xbb3c, 0xbc1c, 0xc0ac, 0xb824,
	0xc6b0, 0xbc29, 0xc0bc, 0xc791, 0xb9ac, 0xc120, 0xacfd, 0xacc4, 0xcc28, 0xc0ac, 0xb1e8, 0xc624, 0xcd94, 0xc62c, 0xad00, 0xd574,
	0xc815, 0xd608, 0xd0d5, 0xcca8, 0xb2e8, 0xd3c9, 0xd560, 0xd601, 0xd55c, 0xd788, 0xad04, 0xc7c1, 0xc624, 0xd68d, 0xc724, 0xc628,
	0xc2dc, 0xd658, 0xd65c, 0xbd80, 0xcd40, 0xd55c, 0xae08, 0xd608, 0xb780, 0xbb38, 0xd560, 0xc601, 0xacb0, 0xd5a5, 0xcd98, 0xce58,
	0xad6c, 0xc704, 0xc5fc, 0xd5a5, 0xc5ed, 0xbbf8, 0xc7c1, 0xc628, 0xc6b0, 0xc2ed, 0xc815, 0xc790, 0xacb0, 0xc11c, 0xc6b0, 0xc911,
	0xad49, 0xd6c4, 0xc870, 0xc804, 0xac01, 0xc774, 0xd64d, 0xc758, 0xc11c, 0xb9ac, 0xace1, 0xd604, 0xc218, 0xadf9, 0xd604, 0xbd09,
	0xacfd, 0xc81c, 0xb798, 0xc8fc, 0xb150, 0xc5ed, 0xc804, 0xbcbd, 0xc804, 0xb989, 0xd638, 0xbc29, 0xb2f9, 0xce58, 0xb9c8, 0xd568,
	0xc804, 0xc6a9, 0xad6c, 0xc778, 0xbcf5, 0xd61c, 0xc704, 0xc758, 0xc5c5, 0xac10, 0xcca9, 0xd638, 0xbe48, 0xcd1d, 0xd5cc, 0xcc38,
	0xd63c, 0xad6c, 0xac04, 0xc790, 0xc9c0, 0xc9d0, 0xad6c, 0xc720, 0xace0, 0xc751, 0xc6c5, 0xd569, 0xace1, 0xcd5c, 0xc11c, 0xc791,
	0xc801, 0xbb34, 0xcd94, 0xc548, 0xc554, 0xb8cc, 0xbcc4, 0xc30d, 0xbe48, 0xc575, 0xc5f0, 0xd559, 0xbc15, 0xc601, 0xd64d, 0xc790,
	0xd761, 0xc81c, 0xc6b0, 0xb8b0, 0xbc15, 0xc6b0, 0xc81c, 0xbd80, 0xc120, 0xc74c, 0xd640, 0xc11d, 0xbd95, 0xccad, 0xc6b0, 0xc640,
	0xc560, 0xd568, 0xb2f4, 0xbc15, 0xc801, 0xd655, 0xbc29, 0xc74c, 0xcd94, 0xb839, 0xb9e4, 0xb9e5, 0xb78c, 0xc18c, 0xc124, 0xc9c4,
	0xbc15, 0xbcf5, 0xb204, 0xd76c, 0xb300, 0xb2f4, 0xc6b4, 0xc0b0, 0xc740, 0xc219, 0xd1f4, 0xbcd1, 0xd638, 0xbe44, 0xbe44, 0xc7a1,
	0xbe44, 0xbe44, 0xd568, 0xc2dc, 0xc804, 0xc804, 0xc794, 0xc810, 0xd68c, 0xbcf4, 0xc6d0, 0xb9c8, 0xcd08, 0xb8cc, 0xac80, 0xba78,
	0xd640, 0xad49, 0xc6b0, 0xae30, 0xd0c0, 0xc559, 0xc0ac, 0xd328, 0xc81c, 0xd604, 0xc81c, 0xd544, 0xc8fc, 0xd3ec, 0xcca9, 0xc774,
	0xc815, 0xacb9, 0xc808, 0xb3c4, 0xd608, 0xb2e8, 0xc870, 0xd608, 0xcc3d, 0xc6d0, 0xad00, 0xb7c9, 0xbd09, 0xae30, 0xb85d, 0xadf9,
	0xc9d1, 0xc720, 0xb3c4, 0xc218, 0xd638, 0xc6b4, 0xc815, 0xbc29, 0xc6a9, 0xc561, 0xc639, 0xd328, 0xbd09, 0xc6b0, 0xc790, 0xbd84,
	0xad00, 0xbcf5, 0xadf9, 0xb3c8, 0xd669, 0xcd09, 0xccb4, 0xbc15, 0xacac, 0xb835, 0xb871, 0xc720, 0xcc38, 0xb780, 0xc1e0, 0xb0a9,
	0xbe44, 0xd0c0, 0xc8fc, 0xc811, 0xbd80, 0xad6d, 0xbd80, 0xd558, 0xc704, 0xbc15, 0xb2f5, 0xbc88, 0xcca8, 0xd68d, 0xc7a1, 0xbe44,
	0xc81c, 0xc81c, 0xc81c, 0xc81c, 0xbc88, 0xd574, 0xd64d, 0xc9c0, 0xbc15, 0xc74c, 0xac00, 0xacbd, 0xbc1c, 0xc6d0, 0xcd94, 0xc601,
	0xc758, 0xac1c, 0xc62c, 0xc724, 0xce68, 0xc544, 0xc800, 0xad6c, 0xbbfc, 0xbc30, 0xac11, 0xbcc0, 0xc808, 0xd638, 0xc9c4, 0xc2e0,
	0xac04, 0xbe44, 0xb2e4, 0xc9c4, 0xd0c8, 0xc0bc, 0xc131, 0xc5fc, 0xc7a0, 0xbaa8, 0xbc30, 0xd1f4, 0xbe44, 0xbd80, 0xcca0, 0xae30,
	0xb9bc, 0xc758, 0xbb38, 0xc624, 0xacc4, 0xc808, 0xce68, 0xd558, 0xd560, 0xc0c1, 0xacfc, 0xd6c4, 0xc694, 0xbcf5, 0xd6a8, 0xc6b4,
	0xbe44, 0xc554, 0xc0ac, 0xd61c, 0xba85, 0xc678, 0xac11, 0xace0, 0xc624, 0xc0bc, 0xc0c1, 0xb8e8, 0xce68, 0xd68c, 0xc0bc, 0xc758,
	0xb9b0, 0xc720, 0xd568, 0xb3c5, 0xae08, 0xba74, 0xbc88, 0xc545, 0xcd08, 0xd64d, 0xd6a1, 0xc728, 0xd608, 0xd3ec, 0xd544, 0xcd08,
	0xc720, 0xc774, 0xc6d4, 0xc0bd, 0xd73c, 0xd611, 0xb960, 0xc5f0, 0xd0dc, 0xd68d, 0xc0bd, 0xb989, 0xd478, 0xd640, 0xad35, 0xbd80,
	0xc704, 0xc704, 0xc218, 0xc554, 0xc720, 0xac15, 0xd6a1, 0xc591, 0xd6a8, 0xc694, 0xbc94, 0xd544, 0xb9ac, 0xd6a1, 0xb3c4, 0xb958,
	0xbe44, 0xc800, 0xb3c4, 0xd758, 0xcc2c, 0xc758, 0xb450, 0xc6d0, 0xad6c, 0xc7ac, 0xbc15, 0xc81c, 0xc559, 0xb3c4, 0xc774, 0xb150,
	0xc18c, 0xbcf8, 0xad6c, 0xbc18, 0xb9d0, 0xc560, 0xc548, 0xc0ac, 0xcc2c, 0xc9c8, 0xc591, 0xc804, 0xc5f0, 0xc138, 0xc81c, 0xbbf8,
	0xc2e0, 0xc81c, 0xc74d, 0xc784, 0xc0ac, 0xace0, 0xb141, 0xc5f4, 0xac74, 0xc218, 0xc601, 0xd3ec, 0xd638, 0xd638, 0xc5fd, 0xd3b8,
	0xc591, 0xb834, 0xc2dd, 0xc628, 0xd1f4, 0xc7a0, 0xc800, 0xc601, 0xc601, 0xce68, 0xb2f9, 0xb2f4, 0xb8cc, 0xd68c, 0xc5ed, 0xc5fd,
	0xacb8, 0xc740, 0xb155, 0xc790, 0xacac, 0xc591, 0xbc15, 0xbbf8, 0xc218, 0xb9c8, 0xb7c9, 0xacc4, 0xacc4, 0xc218, 0xbd88, 0xbc1c,
	0xbd09, 0xbcc4, 0xc758, 0xc704, 0xd658, 0xbc94, 0xae30, 0xbaa8, 0xbd80, 0xc559, 0xc559, 0xbd84, 0xae30, 0xad70, 0xd0dc, 0xc77c,
	0xbc15, 0xbcc0, 0xbc1c, 0xad6c, 0xd604, 0xc220, 0xbe44, 0xc728, 0xce58, 0xb824, 0xc774, 0xb82c, 0xd734, 0xb1e8, 0xd76c, 0xc624,
	0xacbd, 0xb8b0, 0xd3ec, 0xd0c1, 0xcd94, 0xcca0, 0xcc3d, 0xc548, 0xc608, 0xc5ed, 0xb989, 0xbd80, 0xc0bd, 0xd63c, 0xc900, 0xc218,
	0xbcbd, 0xd544, 0xc0bd, 0xc0c1, 0xd559, 0xb825, 0xad50, 0xd55c, 0xc7ac, 0xace8, 0xc2b9, 0xb8e8, 0xb9c9, 0xba71, 0xb9e5, 0xc624,
	0xc801, 0xcd95, 0xd669, 0xbc88, 0xb4f1, 0xb3d9, 0xc9d1, 0xb3c5, 0xc54c, 0xc608, 0xc81c, 0xb3c4, 0xb9b0, 0xd45c, 0xbd09, 0xac74,
	0xc12d, 0xb77c, 0xc2e0, 0xc548, 0xacfc, 0xc12d, 0xc775, 0xace8, 0xc644, 0xc54c, 0xac00, 0xbc1c, 0xace0, 0xb839, 0xac04, 0xad04,
	0xd574, 0xad11, 0xd589, 0xaddc, 0xcc45, 0xc815, 0xb791, 0xd3d0, 0xd658, 0xbcf4, 0xc694, 0xc644, 0xcc99, 0xc218, 0xacfc, 0xb300,
	0xc624, 0xacb8, 0xb9c8, 0xad34, 0xad34, 0xc554, 0xb9d0, 0xacbd, 0xace0, 0xacf1, 0xace0, 0xd638, 0xb2e4, 0xc12c, 0xb0b4, 0xc0ac,
	0xac1c, 0xbe44, 0xd30c, 0xc1a1, 0xc7a5, 0xc54c, 0xb9cc, 0xc22d, 0xcc28, 0xc12c, 0xad04, 0xace0, 0xc801, 0xbd80, 0xc870, 0xc878,
	0xc640, 0xbe44, 0xcc44, 0xbcd1, 0xc0c8, 0xc218, 0xc720, 0xae30, 0xcc28, 0xbc18, 0xbc15, 0xb9cc, 0xcd1d, 0xd734, 0xadc0, 0xc81c,
	0xb78c, 0xc218, 0xbabd, 0xba74, 0xbc18, 0xb824, 0xcc2c, 0xad6c, 0xb958, 0xc758, 0xbb38, 0xb825, 0xb825, 0xc99d, 0xc790, 0xd63c,
	0xc2e0, 0xce58, 0xd589, 0xb9dd, 0xb3d9, 0xc5ed, 0xbe44, 0xd638, 0xb9e4, 0xcc28, 0xb9e4, 0xcd08, 0xade4, 0xc720, 0xc758, 0xc758,
	0xc720, 0xb839, 0xc54c, 0xc815, 0xae00, 0xc790, 0xb9dd, 0xbc29, 0xacf5, 0xc801, 0xac1c, 0xc5b4, 0xc7a0, 0xd328, 0xd30c, 0xd0c0,
	0xc559, 0xad50, 0xc720, 0xc9c8, 0xac1c, 0xb9d0, 0xc2b9, 0xc120, 0xc9c0, 0xc800, 0xbbf8, 0xacf5, 0xc774, 0xae0d, 0xae0d, 0xb450,
	0xbd80, 0xc124, 0xc5c5, 0xc815, 0xc870, 0xbb34, 0xb958, 0xcc2c, 0xb9ac, 0xc219, 0xb85d, 0xd601, 0xc791, 0xd328, 0xb0b4, 0xac70,
	0xc794, 0xad6d, 0xc7c1, 0xc878, 0xd568, 0xc81c, 0xcd94, 0xc120, 0xc81c, 0xb9dd, 0xd45c, 0xb784, 0xc11c, 0xae0d, 0xc561, 0xb9b0,
	0xb3d9, 0xc81c, 0xc5f0, 0xc804, 0xae0d, 0xc639, 0xb791, 0xc5b4, 0xc218, 0xcc28, 0xd574, 0xd65c, 0xc804, 0xcc3d, 0xb8e8, 0xcc38,
	0xc9c0, 0xc704, 0xc120, 0xcd08, 0xbbfc, 0xaddc, 0xc18c, 0xc18d, 0xb9c8, 0xc0ac, 0xd0c0, 0xc7a0, 0xad00, 0xb4f1, 0xb0b4, 0xb85c,
	0xb85c, 0xc758, 0xd574, 0xc5c4, 0xacbd, 0xbcf4, 0xc8fc, 0xd568, 0xad00, 0xc808, 0xb8b0, 0xbabd, 0xc5c5, 0xcc3d, 0xb9bd, 0xc778,
	0xcd98, 0xcd94, 0xb4f1, 0xc5b4, 0xc8fc, 0xad6c, 0xb300, 0xb450, 0xd64d, 0xc2dc, 0xd61c, 0xad6c, 0xc9c0, 0xc2dc, 0xc6d0, 0xae09,
	0xc6b4, 0xbc29, 0xacf5, 0xd56d, 0xc9d0, 0xc791, 0xc6d0, 0xbaa9, 0xac1c, 0xbe44, 0xac10, 0xd604, 0xc0dd, 0xc11d, 0xad50, 0xc790,
	0xc77c, 0xbc1c, 0xc870, 0xc6d0, 0xc790, 0xc9c0, 0xbc31, 0xbb34, 0xbcf4, 0xb3d9, 0xbc1c, 0xb3d9, 0xacac, 0xacf5, 0xad6c, 0xaddc,
	0xcc28, 0xc720, 0xc6d0, 0xb85c, 0xace1, 0xbd80, 0xb151, 0xc544, 0xc544, 0xd615, 0xac04, 0xc548, 0xb3c4, 0xbd80, 0xbd09, 0xba85,
	0xc218, 0xcd94, 0xae30, 0xc5f0, 0xbcc4, 0xc7a0, 0xc120, 0xd6c4, 0xd669, 0xc694, 0xc804, 0xaddc, 0xc5ed, 0xc801, 0xb9e5, 0xc911,
	0xbcf4, 0xbaa9, 0xc9c4, 0xc220, 0xb2f5, 0xce59, 0xacc4, 0xc885, 0xb9c8, 0xad6c, 0xc554, 0xcc38, 0xad6c, 0xd559, 0xb4f1, 0xc5f0,
	0xb3d9, 0xc6b0, 0xc0c1, 0xb1e8, 0xc21c, 0xbd84, 0xbcf5, 0xb839, 0xc624, 0xd658, 0xc758, 0xd658, 0xbabd, 0xc575, 0xb8e8, 0xc5f0,
	0xbcf4, 0xcca9, 0xb839, 0xc0ac, 0xad50, 0xb82c, 0xccad, 0xaca9, 0xccb4, 0xbcbd, 0xac15, 0xc18c, 0xd68c, 0xcd5c, 0xc801, 0xd658,
	0xc624, 0xb824, 0xbbf8, 0xd638, 0xc0dd, 0xac00, 0xc740, 0xc704, 0xc6d0, 0xd45c, 0xb85d, 0xb839, 0xc775, 0xc7ac, 0xc0b0, 0xd640,
	0xc18d, 0xd0c0, 0xb9d0, 0xd65c, 0xcca9, 0xbcd1, 0xbd09, 0xd63c, 0xbd80, 0xacfc, 0xbd80, 0xb9ac, 0xc794, 0xbe44, 0xcc28, 0xbabd,
	0xc1c4, 0xc7a5, 0xc801, 0xad49, 0xd48d, 0xc624, 0xbabd, 0xc0bc, 0xace1, 0xb450, 0xb3c8, 0xc720, 0xd610, 0xb3c8, 0xb2e8, 0xb85c,
	0xcc9c, 0xb2d0, 0xb2d0, 0xb9ac, 0xb3d9, 0xac70, 0xacac, 0xbcf5, 0xc0c8, 0xcc28, 0xb3c4, 0xacac, 0xb18d, 0xc54c, 0xacbd, 0xac04,
	0xc801, 0xacac, 0xb9e4, 0xb2ec, 0xacac, 0xc6b8, 0xc0ac, 0xc7ac, 0xb9dd, 0xb840, 0xace4, 0xd6c8, 0xb2f5, 0xc790, 0xc591, 0xd1a4,
	0xc0c1, 0xd601, 0xc870, 0xd68c, 0xc789, 0xcd2c, 0xad6c, 0xc640, 0xcd94, 0xc9c0, 0xc815, 0xc138, 0xc0c1, 0xc7a1, 0xbd80, 0xcca9,
	0xb2f5, 0xb2f5, 0xd45c, 0xd568, 0xbcd1, 0xac01, 0xcd94, 0xc8fc, 0xbc15, 0xb958, 0xb275, 0xd761, 0xd3ec, 0xc81c, 0xd569, 0xccb4,
	0xc65c, 0xc81c, 0xc81c, 0xc81c, 0xce58, 0xd30c, 0xae08, 0xac00, 0xb9bd, 0xac70, 0xad6c, 0xb784, 0xace1, 0xd611, 0xae30, 0xd568,
	0xd568, 0xc2e4, 0xd568, 0xc560, 0xd560, 0xcc28, 0xcc45, 0xc694, 0xcc38, 0xc81c, 0xcc30, 0xc5c4, 0xacac, 0xc655, 0xc5c4, 0xaddc,
	0xcd08, 0xb3d9, 0xc5fc, 0xc57d, 0xcde8, 0xc9c0, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0xc77c, 0xc815, 0xad50, 0xce60, 0xc0c1, 0xd558, 0xba74, 0xb9cc, 0xc7a5, 0xc0bc, 0xc0c1, 0xd558, 0xae30, 0xbd88, 0xc5ec, 0xba74,
	0xac1c, 0xcd95, 0xcd95, 0xc804, 0xcc28, 0xbe44, 0xc138, 0xc138, 0xad6c, 0xbcd1, 0xc5c5, 0xcd1d, 0xb3d9, 0xc0ac, 0xc2b9, 0xc8fc,
	0xad6c, 0xb7c9, 0xc8fc, 0xc720, 0xb7c9, 0xc5c4, 0xbcd1, 0xc0c1, 0xace4, 0xad6c, 0xac1c, 0xc544, 0xc7a5, 0xc911, 0xadf9, 0xac1c,
	0xbd09, 0xad00, 0xad00, 0xcc2c, 0xc784, 0xcc29, 0xc8fc, 0xd558, 0xd658, 0xb2e8, 0xc704, 0xc8fc, 0xc815, 0xb824, 0xac70, 0xbcc4,
	0xbd88, 0xc774, 0xc608, 0xb0b4, 0xc624, 0xad6c, 0xad6c, 0xd0c1, 0xc694, 0xc758, 0xd638, 0xc9c0, 0xc624, 0xc0ac, 0xd638, 0xd54d,
	0xc545, 0xc74c, 0xbcd1, 0xd401, 0xad50, 0xd638, 0xad34, 0xc2b9, 0xc2b9, 0xc744, 0xc740, 0xc57c, 0xba00, 0xad6c, 0xac78, 0xc57c,
	0xc2b5, 0xd5a5, 0xac1c, 0xaddc, 0xd560, 0xd640, 0xc11c, 0xb458, 0xc2dc, 0xacc4, 0xb0ad, 0xac08, 0xac78, 0xb3cc, 0xbb20, 0xc62c,
	0xb9e4, 0xb780, 0xcc30, 0xc720, 0xc124, 0xc5fc, 0xbcfc, 0xc0b4, 0xb098, 0xac74, 0xc194, 0xc5bc, 0xc904, 0xc798, 0xac74, 0xce58,
	0xad6c, 0xac74, 0xb780, 0xb9b0, 0xc758, 0xad90, 0xb8cc, 0xb9c8, 0xc5ec, 0xc7c1, 0xc0ac, 0xc0ac, 0xc774, 0xcd09, 0xc6b0, 0xc6b0,
	0xc6b8, 0xc6b4, 0xd638, 0xae30, 0xc624, 0xc815, 0xc0ac, 0xc138, 0xae0d, 0xae0d, 0xc544, 0xc0ac, 0xc544, 0xc81c, 0xc544, 0xadf9,
	0xb450, 0xb9dd, 0xd56d, 0xb300, 0xad50, 0xd574, 0xc5ed, 0xc0b0, 0xd615, 0xbb34, 0xb780, 0xd5a5, 0xacbd, 0xc815, 0xb7c9, 0xd5a5,
	0xacbd, 0xc57c, 0xce5c, 0xbc15, 0xc6b0, 0xc124, 0xb2e8, 0xb834, 0xd0c0, 0xbbf8, 0xc778, 0xc778, 0xc9d1, 0xb77c, 0xb9dd, 0xc5b5,
	0xc2ed, 0xc778, 0xb975, 0xc815, 0xce21, 0xbd80, 0xbd80, 0xad6c, 0xd314, 0xc7a5, 0xae08, 0xac1c, 0xbe59, 0xc789, 0xc885, 0xbd88,
	0xc0b0, 0xb95c, 0xc5b4, 0xcc3d, 0xc790, 0xc0ac, 0xd0c0, 0xc7a5, 0xbd80, 0xc120, 0xd5cc, 0xd0c1, 0xd64d, 0xb3d9, 0xc778, 0xcc9c,
	0xd55c, 0xd758, 0xc791, 0xb300, 0xb839, 0xc774, 0xcd08, 0xc7a5, 0xc0bc, 0xc0c1, 0xc758, 0xbb34, 0xbb38, 0xc778, 0xac00, 0xcd08,
	0xc559, 0xac80, 0xc911, 0xbe44, 0xc6d4, 0xc624, 0xac74, 0xac1c, 0xc694, 0xbd09, 0xcc3d, 0xc784, 0xc655, 0xbe48, 0xc800, 0xbc29,
	0xc885, 0xae30, 0xd328, 0xc5ec, 0xc870, 0xb3c8, 0xbb38, 0xc5ed, 0xc2ec, 0xd56d, 0xc774, 0xae09, 0xc560, 0xc624, 0xae30, 0xbcf5,
	0xbc8c, 0xd734, 0xadfc, 0xbc30, 0xce68, 0xbd80, 0xb178, 0xc911, 0xc6b0, 0xd654, 0xd68c, 0xad6c, 0xc26c, 0xc804, 0xc0b0, 0xc704,
	0xc804, 0xac70, 0xc544, 0xd604, 0xc0c1, 0xcc3d, 0xb95c, 0xcc3d, 0xc21c, 0xc2e0, 0xc704, 0xc800, 0xd0dd, 0xd604, 0xb178, 0xbc31,
	0xace0, 0xb2c8, 0xd0c1, 0xc124, 0xbc18, 0xd601, 0xb839, 0xc8fc, 0xc2e0, 0xc800, 0xc0ac, 0xd33d, 0xc0ac, 0xac00, 0xbe44, 0xc774,
	0xc0ac, 0xc774, 0xc815, 0xc804, 0xac10, 0xb9e4, 0xb2e8, 0xc800, 0xd3ec, 0xad6c, 0xd53c, 0xc18c, 0xcc28, 0xc704, 0xc800, 0xc8fc,
	0xc88c, 0xc6b0, 0xc559, 0xccb4, 0xc810, 0xd558, 0xd544, 0xd0c0, 0xc0ac, 0xc5ec, 0xc77c, 0xbd88, 0xc791, 0xad6c, 0xb155, 0xd241,
	0xb2c8, 0xd5cc, 0xac70, 0xc6a9, 0xc640, 0xcca8, 0xc11d, 0xce74, 0xd3ec, 0xd328, 0xd68c, 0xac01, 0xb8cc, 0xd56d, 0xd569, 0xc591,
	0xbc31, 0xbc95, 0xba85, 0xac00, 0xc774, 0xbcd1, 0xae38, 0xd55c, 0xad04, 0xada4, 0xc804, 0xc870, 0xad50, 0xcc28, 0xc77c, 0xc0ac,
	0xd615, 0xc2e0, 0xd0c1, 0xac04, 0xc9c8, 0xd574, 0xb798, 0xc774, 0xce58, 0xacfc, 0xad11, 0xb840, 0xc74c, 0xc2dc, 0xbbf8, 0xc8fc,
	0xd601, 0xc720, 0xc548, 0xb960, 0xbaa8, 0xc774, 0xb95c, 0xb3d9, 0xcc28, 0xce59, 0xc21c, 0xacf5, 0xc8fc, 0xc758, 0xc5ec, 0xcc9c,
	0xd611, 0xac00, 0xc7ac, 0xb824, 0xace0, 0xc694, 0xc815, 0xce21, 0xad50, 0xcf8c, 0xc81c, 0xb155, 0xb18d, 0xc9c4, 0xbaa8, 0xd6c4,
	0xad70, 0xc815, 0xc9c4, 0xc88c, 0xcd94, 0xce68, 0xb824, 0xad6d, 0xb450, 0xc815, 0xc2ec, 0xd0c8, 0xbc1c, 0xb0a8, 0xd6a8, 0xd3b8,
	0xd1f4, 0xc6b0, 0xacc4, 0xcd09, 0xc544, 0xad6c, 0xc11c, 0xad11, 0xace1, 0xc624, 0xc900, 0xc74d, 0xbcf4, 0xb7c9, 0xc870, 0xc18c,
	0xb9ac, 0xc6a9, 0xd754, 0xacbd, 0xd604, 0xc0bc, 0xbc30, 0xc18d, 0xbd80, 0xd76c, 0xb9ac, 0xba74, 0xbe59, 0xbcf4, 0xc720, 0xc0ac,
	0xd611, 0xc2e0, 0xc218, 0xc624, 0xc81c, 0xac70, 0xc8fc, 0xc9c0, 0xc5c4, 0xb7c9, 0xb824, 0xb798, 0xb9ac, 0xac80, 0xc218, 0xbd80,
	0xd654, 0xad6c, 0xd6a8, 0xbc30, 0xcc9c, 0xd45c, 0xc219, 0xbe44, 0xbd09, 0xc544, 0xc5c4, 0xbe44, 0xc8fd, 0xd754, 0xbe44, 0xce58,
	0xcc3d, 0xc9c0, 0xbcd1, 0xad6c, 0xd6a8, 0xc26c, 0xb7c9, 0xc6d0, 0xb798, 0xcc3d, 0xc885, 0xac1c, 0xad00, 0xbc30, 0xc804, 0xc219,
	0xc219, 0xbb38, 0xb3c4, 0xb2f4, 0xad74, 0xc218, 0xd589, 0xbd95, 0xb2f9, 0xd6c4, 0xc758, 0xae30, 0xcc99, 0xac04, 0xacbd, 0xcc28,
	0xd734, 0xcc3d, 0xcca9, 0xbc29, 0xce58, 0xacf5, 0xad8c, 0xc885, 0xac70, 0xcc9c, 0xc608, 0xb95c, 0xd0c1, 0xc65c, 0xb77c, 0xc1a1,
	0xb989, 0xd63c, 0xb3d9, 0xc0ac, 0xbd84, 0xbb34, 0xad6c, 0xb2c8, 0xcc44, 0xac80, 0xcc44, 0xc57c, 0xce58, 0xc0ac, 0xacbd, 0xcca9,
	0xc601, 0xce6d, 0xc804, 0xc5b8, 0xb09c, 0xb3d9, 0xc900, 0xac00, 0xac8c, 0xc704, 0xc6b0, 0xbcd1, 0xc57c, 0xc81c, 0xc678, 0xd3b8,
	0xc548, 0xd48d, 0xd0d5, 0xc545, 0xc545, 0xd574, 0xcc28, 0xc131, 0xac04, 0xc81c, 0xc8fc, 0xc0bd, 0xc815, 0xbc30, 0xc5fd, 0xd669,
	0xc694, 0xb2f4, 0xcd08, 0xc5fc, 0xc720, 0xac74, 0xc11c, 0xcc28, 0xcc28, 0xbd80, 0xd54d, 0xce58, 0xcd1d, 0xba74, 0xc9d1, 0xc758,
	0xc124, 0xc21c, 0xc2dc, 0xb2e8, 0xce21, 0xc815, 0xc6b0, 0xd22c, 0xd22c, 0xbe44, 0xcc30, 0xb8e8, 0xcca9, 0xc704, 0xbd84, 0xc0c1,
	0xad34, 0xc218, 0xce58, 0xc18c, 0xd560, 0xbd80, 0xc6d0, 0xc6a9, 0xb960, 0xb179, 0xc6d0, 0xac15, 0xb9c8, 0xbc29, 0xc804, 0xb2f9,
	0xd638, 0xac78, 0xd61c, 0xc120, 0xacb8, 0xac01, 0xcc3d, 0xcd95, 0xc0b0, 0xbe44, 0xd6a8, 0xc6a9, 0xc694, 0xd0d1, 0xc0ac, 0xc559,
	0xbc8c, 0xbcd1, 0xac00, 0xd0dc, 0xc7ac, 0xb2f9, 0xace8, 0xbe48, 0xc800, 0xb098, 0xcc38, 0xb8b0, 0xcd5c, 0xc6a9, 0xc870, 0xcd1d,
	0xbd95, 0xc885, 0xc624, 0xc804, 0xad6c, 0xcc44, 0xcc99, 0xc0c1, 0xc0c1, 0xacbd, 0xc81c, 0xc0ac, 0xd55c, 0xc7a5, 0xacbd, 0xc5b8,
	0xc81c, 0xc124, 0xb8e8, 0xbe44, 0xd45c, 0xadfc, 0xb828, 0xb959, 0xb9cc, 0xcca8, 0xc120, 0xd0d0, 0xc6c5, 0xb3d9, 0xc120, 0xc0c1,
	0xc120, 0xad50, 0xad70, 0xd1f4, 0xc900, 0xbcf5, 0xd76c, 0xb85c, 0xcc3d, 0xad11, 0xb8cc, 0xae30, 0xb4f1, 0xc794, 0xc704, 0xae30,
	0xbc88, 0xd61c, 0xcc9c, 0xcc38, 0xd0c4, 0xc694, 0xcd94, 0xc2b9, 0xbd84, 0xd55c, 0xacb0, 0xc545, 0xcd08, 0xcc38, 0xb3d9, 0xb9b0,
	0xbd81, 0xace0, 0xc120, 0xc18d, 0xd55c, 0xac15, 0xbbfc, 0xc5fd, 0xae08, 0xac00, 0xcd08, 0xbcbd, 0xd48d, 0xcd94, 0xc560, 0xc0ac,
	0xc758, 0xc900, 0xb18d, 0xcc9c, 0xc5b5, 0xb2f9, 0xacbd, 0xd604, 0xcf8c, 0xac80, 0xcd08, 0xb2f4, 0xad50, 0xc0ac, 0xc7ac, 0xcc2c,
	0xbe48, 0xc555, 0xc720, 0xb300, 0xc8fc, 0xc81c, 0xb78c, 0xc758, 0xc9c4, 0xacac, 0xb9f9, 0xbb34, 0xb155, 0xacbd, 0xc774, 0xc0c1,
	0xb835, 0xb8b0, 0xb824, 0xad11, 0xd3ec, 0xc721, 0xd45c, 0xcc2c, 0xc9c8, 0xc0ac, 0xc6b0, 0xd638, 0xce5c, 0xce24, 0xb825, 0xb4f1,
	0xc704, 0xb871, 0xc800, 0xcc38, 0xc219, 0xc219, 0xd734, 0xb824, 0xb77c, 0xcc2c, 0xb098, 0xb2f9, 0xc5c4, 0xb798, 0xb0ad, 0xc778,
	0xc62c, 0xc724, 0xc7a0, 0xc6d0, 0xd615, 0xcda9, 0xc870, 0xd749, 0xc120, 0xad11, 0xd0dc, 0xadf9, 0xd0dc, 0xba74, 0xd1a0, 0xc7a5,
	0xc544, 0xd0dc, 0xc544, 0xce68, 0xd1a0, 0xc2dc, 0xc5f0, 0xc5f0, 0xc2dc, 0xc2ed, 0xb2f9, 0xcc9c, 0xb450, 0xbd84, 0xbaa8, 0xc2e0,
	0xb450, 0xbc31, 0xae0d, 0xb9ac, 0xd669, 0xc785, 0xb9dd, 0xb0b4, 0xc804, 0xb7c9, 0xc720, 0xd314, 0xacf5, 0xb959, 0xd61c, 0xd55c,
	0xb780, 0xacf5, 0xcc9c, 0xc18c, 0xd765, 0xbcd1, 0xae30, 0xad6c, 0xc804, 0xc790, 0xbfd0, 0xc591, 0xacb8, 0xc218, 0xae30, 0xc608,
	0xae30, 0xcc9c, 0xacbd, 0xbaa8, 0xc5fc, 0xb0b4, 0xc5d4, 0xbb18, 0xac15, 0xc5fc, 0xcc45, 0xacbd, 0xcc45, 0xc7ac, 0xacfc, 0xacbd,
	0xbaa8, 0xc8fc, 0xbaa8, 0xad6c, 0xd6c4, 0xba74, 0xba71, 0xc6a9, 0xc720, 0xc0ac, 0xac10, 0xad70, 0xb18d, 0xc758, 0xbbf8, 0xc11d,
	0xad00, 0xbabd, 0xcd1d, 0xcde8, 0xc6d0, 0xba85, 0xad6c, 0xb9bc, 0xbd80, 0xc0ac, 0xba71, 0xbe59, 0xb3d9, 0xd0dc, 0xac15, 0xd48d,
	0xbe59, 0xd638, 0xcda9, 0xacb0, 0xd638, 0xd669, 0xc57c, 0xb7ad, 0xbc18, 0xbd88, 0xbbfc, 0xb3d9, 0xc2b9, 0xb82c, 0xd611, 0xcca8,
	0xc815, 0xc218, 0xb9e4, 0xb3c4, 0xcc98, 0xace0, 0xc900, 0xc1a1, 0xc815, 0xb7c9, 0xccad, 0xc870, 0xb989, 0xb3d9, 0xae08, 0xac10,
	0xc778, 0xc8fc, 0xc758, 0xb960, 0xcc3d, 0xba85, 0xc900, 0xcd5c, 0xc2dc, 0xd0c1, 0xae08, 0xb984, 0xb984, 0xc751, 0xd76c, 0xb3c5,
	0xada4, 0xbc94, 0xbc94, 0xbc94, 0xbd09, 0xac70, 0xcc98, 0xada4, 0xd48d, 0xbaa9, 0xc9c0, 0xbd80, 0xd48d, 0xbe59, 0xd48d, 0xac1c,
	0xd669, 0xac1c, 0xac10, 0xb4f1, 0xbe59, 0xac10, 0xd749, 0xad34, 0xcca0, 0xc694, 0xcd9c, 0xaca9, 0xb2f9, 0xd568, 0xd568, 0xcc29,
	0xb3c4, 0xc870, 0xb3c4, 0xc778, 0xc778, 0xcc3d, 0xbd84, 0xc808, 0xc608, 0xae30, 0xac04, 0xcc9c, 0xcd0c, 0xcd94, 0xbb38, 0xae30,
	0xb2e8, 0xd615, 0xd654, 0xc644, 0xacb0, 0xb9ac, 0xc6d4, 0xb82c, 0xb958, 0xce59, 0xac15, 0xcc3d, 0xbd88, 0xcd08, 0xcc98, 0xc870,
	0xc0b0, 0xbbfc, 0xb839, 0xc885, 0xd310, 0xbcc4, 0xac81, 0xac81, 0xd3ec, 0xb9ac, 0xc0b0, 0xbcc4, 0xc794, 0xacbd, 0xad04, 0xae0d,
	0xb3c4, 0xcc3d, 0xaddc, 0xace0, 0xd0c0, 0xc774, 0xc81c, 0xc1c4, 0xad8c, 0xcc30, 0xc790, 0xac01, 0xac81, 0xd68c, 0xc790, 0xadc0,
	0xac1c, 0xd0c0, 0xc81c, 0xccb4, 0xacbd, 0xb450, 0xb77c, 0xce59, 0xc5f0, 0xc88c, 0xc0ad, 0xadf9, 0xb784, 0xc804, 0xcc30, 0xcc3d,
	0xacfc, 0xac80, 0xcc29, 0xb9ac, 0xcc99, 0xbe44, 0xbd80, 0xc794, 0xae30, 0xcc3d, 0xc0ac, 0xac15, 0xc644, 0xbc15, 0xae30, 0xcca0,
	0xacbd, 0xc12c, 0xd0c1, 0xac80, 0xc81c, 0xbc15, 0xc5c4, 0xadf9, 0xad35, 0xc789, 0xc804, 0xd0c1, 0xb2e8, 0xc625, 0xacfc, 0xbd80,
	0xc789, 0xac80, 0xd560, 0xb2f5, 0xac1c, 0xcc3d, 0xcc9c, 0xc0b0, 0xc804, 0xb959, 0xb9ac, 0xbd80, 0xc0bc, 0xd45c, 0xad6c, 0xcd08,
	0xad04, 0xcd08, 0xada4, 0xd68d, 0xcc28, 0xd0c1, 0xb834, 0xadf9, 0xbcbd, 0xb958, 0xd68c, 0xcd08, 0xadc0, 0xac80, 0xac80, 0xb2f9,
	0xd655, 0xc81c, 0xac80, 0xc758, 0xac80, 0xc9c8, 0xcc38, 0xcc2c, 0xb9c8, 0xb9ac, 0xcd09, 0xb825, 0xc54c, 0xad8c, 0xd310, 0xacf5,
	0xac00, 0xbb34, 0xb9e4, 0xb82c, 0xadfc, 0xac31, 0xd611, 0xc9c0, 0xb3d9, 0xc870, 0xb178, 0xac81, 0xad6c, 0xcd08, 0xc77c, 0xc800,
	0xb9c9, 0xb824, 0xacbd, 0xb85c, 0xb85c, 0xad8c, 0xad6c, 0xc591, 0xc65c, 0xd6a8, 0xbb34, 0xad11, 0xd560, 0xb82c, 0xd575, 0xd575,
	0xadf9, 0xacbd, 0xace0, 0xbc1c, 0xbbfc, 0xce59, 0xb791, 0xc6a9, 0xc6a9, 0xba74, 0xadf9, 0xd6c8, 0xad8c, 0xacbd, 0xb959, 0xbd80,
	0xb9f9, 0xb798, 0xb975, 0xac1c, 0xba74, 0xb3d9, 0xc6b1, 0xc6b1, 0xac10, 0xbb34, 0xc608, 0xd6c8, 0xc639, 0xc2b9, 0xb85c, 0xbaa8,
	0xb959, 0xd45c, 0xc138, 0xc801, 0xadfc, 0xac15, 0xcd08, 0xad8c, 0xc591, 0xc608, 0xac39, 0xbc88, 0xad8c, 0xb3d9, 0xac70, 0xb2e8,
	0xd611, 0xb9e4, 0xd6c8, 0xd6c8, 0xb824, 0xb824, 0xcca0, 0xc591, 0xad8c, 0xd3ec, 0xc791, 0xade0, 0xad6c, 0xbb38, 0xad6c, 0xbb3c,
	0xade0, 0xbb38, 0xb0b4, 0xac1c, 0xac1c, 0xd3ec, 0xcd1d, 0xc11d, 0xd749, 0xd3c9, 0xad6d, 0xb3c4, 0xd569, 0xd3ec, 0xc555, 0xd3ec,
	0xbcf5, 0xad81, 0xb2f5, 0xad6c, 0xad81, 0xbe44, 0xd654, 0xbd81, 0xb1cc, 0xc2dc, 0xbc29, 0xad6c, 0xc774, 0xc7a1, 0xc7a5, 0xac15,
	0xc7a5, 0xad11, 0xd640, 0xac11, 0xace1, 0xbcc0, 0xada4, 0xd611, 0xc7a5, 0xad11, 0xbe44, 0xd640, 0xc720, 0xada4, 0xada4, 0xd68c,
	0xb2e8, 0xada4, 0xb834, 0xb834, 0xc0b0, 0xb3c5, 0xad6c, 0xac70, 0xd61c, 0xd544, 0xad6c, 0xc758, 0xc554, 0xc5b8, 0xd3b8, 0xb2c9,
	0xad6c, 0xc2ed, 0xc2e0, 0xcc9c, 0xc785, 0xc0bd, 0xc878, 0xc2b9, 0xc624, 0xd6fc, 0xbc18, 0xc138, 0xc2ed, 0xb9cc, 0xd654, 0xd611,
	0xb9cc, 0xbe44, 0xc878, 0xd0c1, 0xd611, 0xb2e8, 0xb9e4, 0xb0a8, 0xb2e8, 0xc9d1, 0xbc15, 0xc194, 0xbcf5, 0xad00, 0xbcc0, 0xacc4,
	0xc810, 0xc7a1, 0xb85c, 0xc720, 0xb85c, 0xc11c, 0xad18, 0xc640, 0xc124, 0xc808, 0xc808, 0xc704, 0xc559, 0xacf5, 0xce58, 0xbb18,
	0xc778, 0xc704, 0xc18c, 0xc989, 0xac01, 0xb780, 0xce58, 0xad8c, 0xc0ac, 0xd73c, 0xadfc, 0xac01, 0xc62c, 0xc989, 0xc545, 0xacbd,
	0xc2ac, 0xc0b0, 0xc5c4, 0xcca8, 0xc561, 0xccad, 0xb825, 0xcc45, 0xc5c4, 0xb824, 0xc544, 0xc555, 0xc5fc, 0xc0ac, 0xc9c0, 0xcc28,
	0xb871, 0xc573, 0xac11, 0xc560, 0xc9c8, 0xce21, 0xbc29, 0xc81c, 0xb9ac, 0xc0ac, 0xd6c4, 0xccad, 0xc218, 0xc870, 0xbe44, 0xc6d0,
	0xce21, 0xc6d0, 0xc0c1, 0xc5fc, 0xb825, 0xad90, 0xd558, 0xc804, 0xc8fc, 0xad6c, 0xadfc, 0xc624, 0xada4, 0xc5fc, 0xc2dc, 0xb825,
	0xcc3d, 0xac10, 0xb824, 0xc5c4, 0xc5fc, 0xc6d0, 0xc0ac, 0xad49, 0xb9b0, 0xad6c, 0xac70, 0xac70, 0xba70, 0xb8e8, 0xc8fc, 0xd604,
	0xc804, 0xcc38, 0xcc38, 0xcc38, 0xcc38, 0xcc38, 0xc560, 0xccb4, 0xc6b0, 0xcc28, 0xae09, 0xc6b0, 0xc30d, 0xbc18, 0xc218, 0xcf8c,
	0xbc1c, 0xbc1c, 0xc57d, 0xc0ac, 0xc219, 0xcca0, 0xcde8, 0xc218, 0xbcc0, 0xc11c, 0xac00, 0xbc18, 0xc218, 0xace0, 0xc704, 0xc218,
	0xcca9, 0xc608, 0xcd1d, 0xad6c, 0xace0, 0xad6c, 0xb839, 0xad18, 0xb3c4, 0xace0, 0xc9c0, 0xaddc, 0xc18c, 0xd314, 0xc815, 0xac00,
	0xd0dc, 0xc9c8, 0xc0ac, 0xc6b0, 0xad6c, 0xd30c, 0xd611, 0xd638, 0xc0ac, 0xc6b0, 0xcc99, 0xb825, 0xc870, 0xae30, 0xb8cc, 0xd64d,
	0xb9c8, 0xc6b0, 0xb9dd, 0xd758, 0xac01, 0xd6e4, 0xc694, 0xc790, 0xd569, 0xae38, 0xc801, 0xcd0c, 0xb3d9, 0xba85, 0xd6c4, 0xb9ac,
	0xd1a0, 0xd5a5, 0xd0c0, 0xd601, 0xc57c, 0xb824, 0xc544, 0xb9c8, 0xc6b0, 0xd654, 0xc758, 0xad70, 0xcd94, 0xb9b0, 0xd0c4, 0xc74c,
	0xd3d0, 0xd544, 0xc2ec, 0xc2ec, 0xac1c, 0xbd80, 0xbd80, 0xd30c, 0xb454, 0xbd84, 0xc640, 0xd568, 0xc740, 0xd56d, 0xc804, 0xacc4,
	0xd6a1, 0xc9c0, 0xc2e0, 0xc624, 0xc624, 0xcd08, 0xb20c, 0xd608, 0xd761, 0xcde8, 0xb450, 0xbb38, 0xd6c4, 0xd6c4, 0xc624, 0xace0,
	0xd558, 0xade0, 0xb824, 0xc560, 0xaca9, 0xb9e4, 0xb9e4, 0xacc4, 0xc815, 0xc624, 0xace0, 0xbd80, 0xaddc, 0xd6c4, 0xcc99, 0xc2b9,
	0xb20c, 0xd0c4, 0xbb34, 0xc608, 0xd0dc, 0xad6c, 0xb825, 0xd328, 0xc6d0, 0xad18, 0xae30, 0xcc3d, 0xc624, 0xc561, 0xc2dc, 0xd604,
	0xbcf8, 0xbb38, 0xb2c8, 0xbb34, 0xb839, 0xc5fc, 0xc720, 0xc800, 0xc8fc, 0xae30, 0xc8fc, 0xcca9, 0xd76c, 0xc608, 0xae30, 0xd3c9,
	0xc790, 0xace0, 0xc790, 0xbbf8, 0xad6c, 0xac00, 0xb178, 0xd569, 0xbe44, 0xc77c, 0xd6a8, 0xc2e0, 0xd638, 0xba85, 0xb2ec, 0xac70,
	0xc800, 0xac10, 0xc7a1, 0xd0c0, 0xb3cc, 0xbd80, 0xd3ec, 0xd544, 0xbd88, 0xc559, 0xd654, 0xc0ac, 0xd654, 0xd574, 0xad6c, 0xc601,
	0xbd80, 0xd0c0, 0xc8fc, 0xc640, 0xc7a1, 0xace0, 0xac00, 0xc88c, 0xd3ec, 0xb871, 0xb3d9, 0xb155, 0xd0c0, 0xc0ac, 0xd604, 0xd68d,
	0xc9d1, 0xc774, 0xc545, 0xad49, 0xd0c0, 0xd76c, 0xc774, 0xb82c, 0xc790, 0xbbf8, 0xbbf8, 0xc9c0, 0xad50, 0xae38, 0xc8fc, 0xac01,
	0xc21c, 0xcc30, 0xc18c, 0xd574, 0xd68c, 0xacfc, 0xc2dc, 0xb3c4, 0xd568, 0xc54c, 0xd6e4, 0xd734, 0xad18, 0xc778, 0xb85c, 0xc774,
	0xc560, 0xd488, 0xc2e0, 0xb3d9, 0xd64d, 0xd749, 0xce58, 0xc640, 0xd569, 0xc7ac, 0xc721, 0xc9c0, 0xace0, 0xd5a5, 0xc560, 0xadfc,
	0xad11, 0xc544, 0xb2ec, 0xd6a8, 0xd544, 0xd670, 0xb144, 0xd654, 0xd589, 0xcf8c, 0xd0c0, 0xbfd0, 0xc81c, 0xb18d, 0xbaa8, 0xc57d,
	0xd638, 0xc6d0, 0xb871, 0xd22c, 0xbc29, 0xac00, 0xc544, 0xd558, 0xcd08, 0xb9ac, 0xb098, 0xc871, 0xd558, 0xace1, 0xd6a8, 0xd604,
	0xb85c, 0xbc1c, 0xcca0, 0xcc30, 0xb7c9, 0xd314, 0xb9c8, 0xb82c, 0xc1e0, 0xbd80, 0xd3ec, 0xd55c, 0xd615, 0xacbd, 0xc124, 0xac00,
	0xc720, 0xc5b8, 0xace1, 0xace1, 0xd328, 0xd568, 0xc0ac, 0xc9c4, 0xc74d, 0xc560, 0xacb9, 0xb3c4, 0xb2e8, 0xc644, 0xb9ac, 0xd76c,
	0xb2f9, 0xc11c, 0xc8fc, 0xcc28, 0xc624, 0xc870, 0xc544, 0xb450, 0xacc4, 0xc801, 0xce68, 0xb9c8, 0xb9d0, 0xd64d, 0xb450, 0xac83,
	0xb85c, 0xb7c9, 0xc1c4, 0xc870, 0xd658, 0xb7ad, 0xc0ac, 0xc989, 0xc800, 0xc640, 0xbd09, 0xae08, 0xd638, 0xae30, 0xc218, 0xc720,
	0xc1b0, 0xcc3d, 0xc560, 0xb824, 0xac15, 0xc554, 0xcc28, 0xc721, 0xc810, 0xc5b4, 0xc804, 0xb798, 0xc0bd, 0xc11d, 0xd0c0, 0xd640,
	0xc560, 0xc870, 0xb204, 0xc2b5, 0xd0c1, 0xd0c1, 0xc0c1, 0xc801, 0xd589, 0xb78c, 0xc544, 0xad50, 0xac15, 0xd1a4, 0xc624, 0xbb38,
	0xcd40, 0xc7a1, 0xd640, 0xacc4, 0xacc4, 0xb3c4, 0xb2f4, 0xb2f4, 0xc644, 0xc790, 0xbe44, 0xcd40, 0xcca0, 0xd654, 0xc544, 0xacc4,
	0xcca0, 0xbc30, 0xb7c9, 0xd568, 0xbe44, 0xc0ac, 0xb78d, 0xcc45, 0xc815, 0xad18, 0xbc15, 0xc790, 0xc0c9, 0xc804, 0xad50, 0xad35,
	0xb77c, 0xc554, 0xc801, 0xad8c, 0xd0c4, 0xd30c, 0xc815, 0xb791, 0xc18c, 0xac70, 0xb2f9, 0xc2dc, 0xc81c, 0xc554, 0xcd94, 0xb2f4,
	0xac1d, 0xc639, 0xc704, 0xb0a8, 0xc120, 0xc721, 0xcca0, 0xb77c, 0xac1c, 0xd6c4, 0xd568, 0xcca9, 0xc8fc, 0xc7ac, 0xad18, 0xc57c,
	0xc6b1, 0xc74c, 0xc7a0, 0xc694, 0xc545, 0xba74, 0xd638, 0xc6b4, 0xcc9c, 0xd6fc, 0xd658, 0xd658, 0xd76c, 0xac08, 0xc989, 0xc704,
	0xc885, 0xc704, 0xc0bd, 0xd6c4, 0xd669, 0xb3c4, 0xb151, 0xd6e4, 0xb7c9, 0xc720, 0xc0c1, 0xb07d, 0xad50, 0xc5b8, 0xb2e8, 0xbd84,
	0xc2dd, 0xb9ac, 0xc57d, 0xc0ac, 0xc704, 0xbb18, 0xc601, 0xbd84, 0xd3ff, 0xaddc, 0xacc4, 0xc720, 0xae09, 0xb8e8, 0xace1, 0xc18c,
	0xd559, 0xc81c, 0xc694, 0xd559, 0xc0ac, 0xd6c4, 0xcc3d, 0xc0c9, 0xc639, 0xc18c, 0xd64d, 0xd611, 0xc775, 0xc0ad, 0xb9c8, 0xcc28,
	0xd560, 0xd569, 0xd0d1, 0xc0c1, 0xc9c4, 0xc695, 0xc218, 0xc648, 0xacc4, 0xbc29, 0xc624, 0xacb8, 0xae30, 0xaca9, 0xc790, 0xcc28,
	0xb77d, 0xc639, 0xc62c, 0xc0ac, 0xce58, 0xd638, 0xc0c9, 0xb95c, 0xd574, 0xc1c4, 0xc9c4, 0xc12d, 0xd558, 0xc9d3, 0xc1c4, 0xc740,
	0xac1c, 0xb098, 0xb2e4, 0xc560, 0xac15, 0xd1b5, 0xd544, 0xc624, 0xc624, 0xb828, 0xcd5c, 0xcc28, 0xb9c9, 0xc218, 0xc8fc, 0xd0d0,
	0xc801, 0xc7a1, 0xad50, 0xcda9, 0xad50, 0xac1c, 0xd0c4, 0xc0bc, 0xc870, 0xac00, 0xc560, 0xd6a8, 0xd45c, 0xb8e8, 0xc54c, 0xd558,
	0xad50, 0xd638, 0xd61c, 0xad35, 0xad6c, 0xc5b8, 0xcc45, 0xc0c1, 0xd5c8, 0xd30c, 0xb4dd, 0xb9c8, 0xb9c8, 0xace1, 0xb975, 0xb3c4,
	0xc54c, 0xb2f9, 0xc57c, 0xbd95, 0xc575, 0xc0ac, 0xad50, 0xbc00, 0xc18c, 0xd654, 0xb9e4, 0xc5f0, 0xcd5c, 0xd33d, 0xb85c, 0xc18c,
	0xae30, 0xcd09, 0xc870, 0xadc0, 0xcde8, 0xd6a8, 0xc2dc, 0xd638, 0xbb34, 0xb8cc, 0xad50, 0xd76c, 0xcd95, 0xd0c4, 0xb2f4, 0xbb35,
	0xc190, 0xc624, 0xc900, 0xbc88, 0xb07d, 0xc704, 0xcc38, 0xb2f9, 0xcd95, 0xb2f4, 0xc728, 0xd1a4, 0xc7c1, 0xcd08, 0xc5f4, 0xd761,
	0xae30, 0xd638, 0xb828, 0xd5c8, 0xb4f1, 0xc704, 0xc74c, 0xbc15, 0xad90, 0xae08, 0xc2ec, 0xad50, 0xb85c, 0xc0ac, 0xc5c4, 0xc751,
	0xb2ec, 0xcca8, 0xc624, 0xc8fc, 0xae08, 0xb18d, 0xd670, 0xd670, 0xae30, 0xc545, 0xc870, 0xd76c, 0xc11c, 0xad50, 0xc5f0, 0xc560,
	0xc639, 0xac39, 0xcf8c, 0xc6b0, 0xbd84, 0xb3c4, 0xac08, 0xd760, 0xd1a4, 0xb2f9, 0xc2e0, 0xc0c8, 0xbcbd, 0xbe44, 0xc74c, 0xcde8,
	0xb155, 0xc801, 0xb78c, 0xd0d1, 0xd68d, 0xc720, 0xd6a8, 0xd558, 0xc5fd, 0xb3cc, 0xbe44, 0xc8fc, 0xc81c, 0xc9c4, 0xd638, 0xccb4,
	0xc0c1, 0xd6c8, 0xb9c8, 0xcc30, 0xccb4, 0xb85c, 0xd61c, 0xbc15, 0xc6b0, 0xad50, 0xc740, 0xd559, 0xbb35, 0xd6a1, 0xcca0, 0xb9ac,
	0xb958, 0xd61c, 0xb0ad, 0xd6a8, 0xb9c8, 0xc5f0, 0xb825, 0xb85c, 0xb871, 0xbd80, 0xb2f4, 0xce5c, 0xbe48, 0xbe44, 0xd5a5, 0xd559,
	0xb9c8, 0xd76c, 0xd0c0, 0xace1, 0xc5c4, 0xcc38, 0xc575, 0xc591, 0xc810, 0xb77c, 0xc218, 0xd6a8, 0xc791, 0xcca0, 0xd6e4, 0xd68d,
	0xc804, 0xc12d, 0xd6a8, 0xc7a1, 0xb9ac, 0xcc9c, 0xcc44, 0xb824, 0xc608, 0xb77c, 0xb0ad, 0xcc2c, 0xc18c, 0xd76c, 0xc99d, 0xac04,
	0xc798, 0xcd09, 0xb780, 0xc124, 0xb0ad, 0xb78c, 0xb77c, 0xad6d, 0xd68c, 0xc778, 0xc218, 0xc0ac, 0xc778, 0xac74, 0xd68c, 0xc2e0,
	0xc778, 0xb2d9, 0xb2e8, 0xb2e8, 0xb3c8, 0xac15, 0xc5f0, 0xacbd, 0xd3b8, 0xc6b4, 0xcc3d, 0xd640, 0xd68c, 0xc644, 0xc640, 0xad6d,
	0xace4, 0xcc3d, 0xc704, 0xb3c4, 0xc704, 0xb95c, 0xad6d, 0xade0, 0xc77c, 0xb839, 0xace0, 0xad6d, 0xd0dc, 0xad6d, 0xb3c4, 0xc720,
	0xad6d, 0xc740, 0xd63c, 0xd3ec, 0xc5b4, 0xd568, 0xc6d0, 0xb95c, 0xad8c, 0xc5b4, 0xccad, 0xad6d, 0xcc9c, 0xc704, 0xc6d0, 0xad8c,
	0xace0, 0xd3ec, 0xc6d0, 0xc6d0, 0xc555, 0xc11c, 0xb3c4, 0xb3c4, 0xb2e8, 0xb7b5, 0xada4, 0xc5ed, 0xc6d0, 0xb780, 0xb780, 0xd1a0,
	0xc54c, 0xd1a0, 0xc815, 0xace8, 0xbc15, 0xb85d, 0xc785, 0xc555, 0xc7ac, 0xc6b0, 0xc744, 0xc624, 0xc624, 0xaddc, 0xbe44, 0xc774,
	0xc9c0, 0xcc9c, 0xcc9c, 0xc218, 0xc791, 0xd0d5, 0xacb9, 0xd558, 0xc0b0, 0xad11, 0xc7a5, 0xae30, 0xb148, 0xbab0, 0xae09, 0xac08,
	0xc9c0, 0xc9c0, 0xd310, 0xd6c8, 0xc5ed, 0xae08, 0xb9e4, 0xade0, 0xac31, 0xb454, 0xbc29, 0xbd84, 0xbd84, 0xb2e8, 0xac10, 0xbc30,
	0xc88c, 0xac31, 0xbe44, 0xd615, 0xc9c0, 0xacbd, 0xae30, 0xad34, 0xc9c0, 0xacbd, 0xacac, 0xb2e8, 0xb825, 0xd30c, 0xc624, 0xbd84,
	0xcd94, 0xd30c, 0xbc18, 0xb2f9, 0xace4, 0xc800, 0xd0c4, 0xcc99, 0xc774, 0xac10, 0xd3c9, 0xc810, 0xacfc, 0xb2c8, 0xb300, 0xbc30,
	0xacbd, 0xc559, 0xbd88, 0xc694, 0xb959, 0xad6c, 0xbaa9, 0xac00, 0xad6c, 0xd608, 0xbc1c, 0xc9c0, 0xd0c1, 0xb839, 0xc800, 0xbd80,
	0xd638, 0xce58, 0xc218, 0xb784, 0xb871, 0xb871, 0xb85c, 0xc694, 0xb300, 0xd3ec, 0xbbfc, 0xd615, 0xb3d9, 0xac8c, 0xaca9, 0xb960,
	0xc790, 0xce58, 0xb8e8, 0xd574, 0xc778, 0xd6c4, 0xd1f4, 0xc870, 0xbcf5, 0xad11, 0xc694, 0xd0c0, 0xd0c0, 0xada4, 0xd0c0, 0xc591,
	0xc740, 0xbc8c, 0xad6c, 0xc6d0, 0xc9c8, 0xd611, 0xc740, 0xc0c1, 0xc218, 0xc545, 0xbcd1, 0xc810, 0xd64d, 0xc544, 0xacfc, 0xb2ec,
	0xc694, 0xb2f9, 0xac1c, 0xd589, 0xb1cc, 0xc548, 0xc131, 0xd604, 0xc644, 0xbc29, 0xbd80, 0xd30c, 0xc5ed, 0xc740, 0xd55c, 0xc11c,
	0xc218, 0xc7a0, 0xacbd, 0xc560, 0xbd09, 0xbc29, 0xac01, 0xc6a9, 0xc900, 0xd611, 0xc9c0, 0xb9e4, 0xb791, 0xd604, 0xc131, 0xc5f0,
	0xce68, 0xcca0, 0xb784, 0xb784, 0xd3ec, 0xc815, 0xd654, 0xbcf4, 0xc2dc, 0xd6c8, 0xacfc, 0xacbd, 0xc57c, 0xb150, 0xc81c, 0xc5ed,
	0xbd80, 0xc624, 0xad8c, 0xc1c4, 0xbe44, 0xc815, 0xc644, 0xad6c, 0xb95c, 0xc815, 0xacf5, 0xcd1d, 0xb3d9, 0xd0dc, 0xb2c8, 0xc554,
	0xcc44, 0xc219, 0xbd09, 0xac10, 0xc2dd, 0xd0c0, 0xc608, 0xc9d1, 0xc5ed, 0xbc30, 0xae30, 0xc900, 0xae30, 0xc18c, 0xcd94, 0xb2f4,
	0xad74, 0xacfc, 0xb2f9, 0xace4, 0xc608, 0xacac, 0xd1f4, 0xadfc, 0xac15, 0xc721, 0xc545, 0xbd95, 0xace0, 0xd1a0, 0xb989, 0xbc29,
	0xc560, 0xcc38, 0xace4, 0xc548, 0xc2ec, 0xd0c0, 0xb1cc, 0xb3cc, 0xc2b9, 0xc778, 0xd63c, 0xbcbd, 0xb828, 0xacfc, 0xcca9, 0xc804,
	0xd6c4, 0xbcf4, 0xbcf4, 0xc6b0, 0xc81c, 0xbb34, 0xacc4, 0xc5f0, 0xc54c, 0xae0d, 0xac10, 0xc885, 0xc720, 0xd669, 0xc545, 0xc694,
	0xc5b8, 0xbcf4, 0xc990, 0xbbf8, 0xc7a5, 0xb3c4, 0xd0c0, 0xc554, 0xd48d, 0xc885, 0xacc4, 0xc9c4, 0xd589, 0xac15, 0xcd98, 0xac10,
	0xbcd1, 0xb8e8, 0xd56d, 0xd669, 0xbc29, 0xb2e8, 0xb9cc, 0xc120, 0xae30, 0xcc99, 0xad34, 0xc601, 0xd0d1, 0xc2b9, 0xc6a9, 0xac1c,
	0xc18c, 0xc18c, 0xc2dc, 0xba71, 0xd0d1, 0xc639, 0xc790, 0xb3c4, 0xb2f9, 0xace0, 0xcd1d, 0xb960, 0xbd09, 0xbc29, 0xc0c8, 0xc7a5,
	0xd1f4, 0xc804, 0xc624, 0xc815, 0xd6c8, 0xac1d, 0xc9c4, 0xc560, 0xacf5, 0xc5fc, 0xac10, 0xc804, 0xc6d0, 0xc628, 0xc0ac, 0xb958,
	0xd574, 0xb791, 0xc7a5, 0xbd09, 0xbd95, 0xc9c4, 0xb85d, 0xb85c, 0xc6b0, 0xcc38, 0xb9e4, 0xb9c9, 0xc804, 0xc0c1, 0xc219, 0xb8e8,
	0xc9c0, 0xb9cc, 0xd45c, 0xacbd, 0xcc99, 0xc11c, 0xccb4, 0xc7a5, 0xac10, 0xc6a9, 0xc810, 0xcc38, 0xcc99, 0xae30, 0xacfd, 0xc7a5,
	0xadfc, 0xc801, 0xc0c1, 0xbb18, 0xcd5c, 0xc5b8, 0xd0d1, 0xc99d, 0xac74, 0xc7a5, 0xb7c9, 0xc704, 0xcd94, 0xc694, 0xc99d, 0xd5c8,
	0xc120, 0xc120, 0xbc1c, 0xbcf5, 0xad34, 0xb3d9, 0xbc88, 0xac01, 0xbb35, 0xb3c8, 0xb3c8, 0xc900, 0xc9c0, 0xc131, 0xd0c0, 0xd0c0,
	0xb2f4, 0xb4f1, 0xbb34, 0xbd84, 0xd669, 0xb2f4, 0xb2ec, 0xd654, 0xc800, 0xac04, 0xc624, 0xc7a5, 0xaca9, 0xad50, 0xac04, 0xc5ed,
	0xbe44, 0xbcbd, 0xc804, 0xac15, 0xc57c, 0xc639, 0xd559, 0xb2e8, 0xb78c, 0xac70, 0xad34, 0xb2f9, 0xc591, 0xcc38, 0xd6c8, 0xd568,
	0xc0c8, 0xd559, 0xc560, 0xc555, 0xb3c4, 0xd638, 0xc5f0, 0xc9c4, 0xb8e8, 0xad11, 0xb85c, 0xc5fc, 0xb2f4, 0xc720, 0xad34, 0xb871,
	0xb871, 0xc608, 0xb825, 0xb9b0, 0xc591, 0xc804, 0xd6c8, 0xc554, 0xb8b0, 0xd30c, 0xb9cc, 0xc0ac, 0xc784, 0xc0b0, 0xc7a5, 0xc7a5,
	0xc131, 0xc77c, 0xb9e4, 0xac01, 0xc8fc, 0xc7a5, 0xd638, 0xd638, 0xace4, 0xc77c, 0xd638, 0xc11c, 0xace4, 0xc218, 0xb9dd, 0xc900,
	0xc218, 0xc77c, 0xce58, 0xace0, 0xcc98, 0xac15, 0xbd09, 0xbe44, 0xc7ac, 0xbcc0, 0xc1e0, 0xc900, 0xb989, 0xbcf5, 0xc88c, 0xd558,
	0xd615, 0xc12d, 0xb178, 0xd558, 0xae30, 0xc11d, 0xc678, 0xc6d0, 0xc6d0, 0xc219, 0xb2e4, 0xb2e4, 0xc57c, 0xccad, 0xc68b, 0xad6c,
	0xad6c, 0xae30, 0xbabd, 0xbabd, 0xc778, 0xacfc, 0xce68, 0xb300, 0xb148, 0xcc9c, 0xd0dc, 0xbd80, 0xcf8c, 0xc694, 0xc559, 0xd56d,
	0xd638, 0xc2e4, 0xb3c4, 0xd0dc, 0xb450, 0xc5fc, 0xbe44, 0xc774, 0xacfc, 0xd611, 0xd0c8, 0xd654, 0xcc9c, 0xc6b4, 0xd611, 0xd30c,
	0xb9dd, 0xb834, 0xd658, 0xc800, 0xc5c4, 0xd3ec, 0xad8c, 0xae30, 0xb0b4, 0xbd09, 0xd608, 0xac15, 0xc810, 0xc591, 0xaddc, 0xc8fc,
	0xd658, 0xacc4, 0xac1c, 0xcc28, 0xbd84, 0xd601, 0xc7a5, 0xd22c, 0xc7a5, 0xbd84, 0xd574, 0xd669, 0xbe44, 0xc870, 0xc21c, 0xae0d,
	0xc804, 0xc624, 0xc0ac, 0xc575, 0xbc18, 0xc624, 0xbb34, 0xc624, 0xc7a5, 0xb834, 0xd0c8, 0xc724, 0xc7a5, 0xc11d, 0xbd84, 0xd65c,
	0xbe44, 0xb828, 0xcc28, 0xb140, 0xb178, 0xc815, 0xb0b4, 0xcc9c, 0xac04, 0xc800, 0xad6c, 0xb09c, 0xd0c0, 0xd638, 0xc120, 0xbc88,
	0xae30, 0xc791, 0xc5ec, 0xbe44, 0xb9dd, 0xd64d, 0xc7a5, 0xbd80, 0xb9c8, 0xb2f4, 0xc784, 0xbd80, 0xc815, 0xc5f0, 0xd574, 0xbb38,
	0xc885, 0xd30c, 0xd22c, 0xae30, 0xac31, 0xc911, 0xc694, 0xae08, 0xc6b4, 0xbb18, 0xbc30, 0xce58, 0xacb0, 0xc7a5, 0xb274, 0xc548,
	0xb0a9, 0xd754, 0xbd84, 0xbe44, 0xc5ec, 0xd0c0, 0xbd09, 0xc644, 0xbc29, 0xbb34, 0xad6c, 0xaddc, 0xd22c, 0xbc1c, 0xb2c8, 0xcd95,
	0xc791, 0xcd08, 0xb2ec, 0xb2c8, 0xc6d0, 0xc8fc, 0xd604, 0xc9c8, 0xc544, 0xb9e4, 0xb9d0, 0xcc98, 0xd544, 0xc2e0, 0xcca9, 0xc544,
	0xd654, 0xd6c4, 0xd54d, 0xc815, 0xbbfc, 0xbc18, 0xbaa8, 0xbd80, 0xb839, 0xc790, 0xc790, 0xc2dc, 0xc5fc, 0xc0b0, 0xc559, 0xb2f4,
	0xc800, 0xace0, 0xc0ac, 0xc131, 0xc704, 0xc790, 0xac70, 0xc0b0, 0xd3c9, 0xc784, 0xc694, 0xb3d9, 0xac15, 0xc8fc, 0xae38, 0xd574,
	0xd5a5, 0xd65c, 0xc5f0, 0xad50, 0xad6c, 0xbaa8, 0xac04, 0xac04, 0xc774, 0xb144, 0xc9c8, 0xc9c4, 0xd76c, 0xd5d8, 0xd56d, 0xad11,
	0xc21c, 0xacfc, 0xc548, 0xba85, 0xb82c, 0xd328, 0xc555, 0xc720, 0xc5f0, 0xcc28, 0xc2e0, 0xc778, 0xc81c, 0xada4, 0xc804, 0xc790,
	0xc735, 0xc704, 0xd64d, 0xc65c, 0xb8e8, 0xc544, 0xc694, 0xad50, 0xb828, 0xbe59, 0xd604, 0xc18c, 0xb9ac, 0xc131, 0xd608, 0xb9dd,
	0xbd80, 0xc0ac, 0xbaa8, 0xbbf8, 0xadf9, 0xcc29, 0xcc29, 0xc815, 0xb0ad, 0xd615, 0xb0a8, 0xc624, 0xb098, 0xbd80, 0xb1cc, 0xc5f0,
	0xc2e0, 0xc9c0, 0xd568, 0xc81c, 0xc7a5, 0xc544, 0xbe48, 0xd0dc, 0xd55c, 0xb9cc, 0xc624, 0xc5f0, 0xbb34, 0xc560, 0xc5b8, 0xc624,
	0xc0ac, 0xc624, 0xc65c, 0xb9ac, 0xd55c, 0xcd94, 0xcde8, 0xc218, 0xae30, 0xd604, 0xcd2c, 0xb3d9, 0xcc3d, 0xb85d, 0xc560, 0xc544,
	0xc544, 0xb8e8, 0xba74, 0xc885, 0xbd80, 0xad6d, 0xd30c, 0xcc44, 0xb989, 0xc644, 0xd45c, 0xd6a8, 0xc219, 0xae30, 0xd734, 0xbc18,
	0xc640, 0xc720, 0xb2f4, 0xbe44, 0xbe44, 0xcca9, 0xcca8, 0xc608, 0xad8c, 0xc815, 0xd63c, 0xacbd, 0xac04, 0xc804, 0xd589, 0xace0,
	0xc644, 0xb798, 0xbe44, 0xc778, 0xc8fc, 0xc791, 0xbd80, 0xc815, 0xb860, 0xc548, 0xb78c, 0xd63c, 0xc74c, 0xc544, 0xac70, 0xb824,
	0xc804, 0xd604, 0xd654, 0xd68d, 0xc601, 0xc120, 0xc2ec, 0xc815, 0xd0d5, 0xc694, 0xbb34, 0xb0a8, 0xc57c, 0xac00, 0xc720, 0xc11c,
	0xc6b0, 0xc704, 0xc81c, 0xc720, 0xbbf8, 0xb2f4, 0xb208, 0xce5c, 0xd718, 0xc625, 0xc804, 0xcd98, 0xbb18, 0xbd80, 0xc800, 0xb2e8,
	0xc774, 0xc911, 0xb9e4, 0xd669, 0xba74, 0xc554, 0xc601, 0xd6e4, 0xac1c, 0xc704, 0xbbf8, 0xc6d0, 0xc815, 0xcd94, 0xc81c, 0xc124,
	0xd0c0, 0xb828, 0xbaa8, 0xc5fc, 0xc2dc, 0xd3b8, 0xc704, 0xc65c, 0xc720, 0xd638, 0xc624, 0xcca9, 0xbcf4, 0xc218, 0xc720, 0xaddc,
	0xcd94, 0xc694, 0xbe44, 0xc2dd, 0xc6d0, 0xc789, 0xc6a9, 0xc695, 0xce58, 0xb958, 0xbbf8, 0xbc18, 0xc628, 0xb9c8, 0xad6c, 0xad34,
	0xc9c4, 0xac00, 0xc218, 0xc9c4, 0xc6d0, 0xcc28, 0xc6a9, 0xba85, 0xc575, 0xc9c8, 0xc18c, 0xb1e8, 0xd610, 0xb3c4, 0xbc29, 0xb791,
	0xb1e8, 0xc694, 0xc560, 0xbe44, 0xbe48, 0xc608, 0xd45c, 0xad6c, 0xb8e8, 0xc120, 0xb9cc, 0xc608, 0xc7a5, 0xac15, 0xc6a9, 0xb2c9,
	0xb9ac, 0xc801, 0xaddc, 0xc5b8, 0xadfc, 0xc804, 0xd56d, 0xcc45, 0xd55c, 0xb208, 0xb85c, 0xbaa8, 0xc11c, 0xd638, 0xd638, 0xc624,
	0xb208, 0xc7a5, 0xb9c8, 0xbcc4, 0xace0, 0xbb34, 0xcd08, 0xd0c0, 0xc120, 0xbb18, 0xd55c, 0xd55c, 0xbb35, 0xb8cc, 0xb828, 0xd68d,
	0xaddc, 0xb4f1, 0xc9c1, 0xc218, 0xc77c, 0xd654, 0xae09, 0xada4, 0xc694, 0xd76c, 0xc5f0, 0xc120, 0xad50, 0xbbf8, 0xbc18, 0xbc88,
	0xc12c, 0xc758, 0xd68c, 0xad50, 0xbc18, 0xc11d, 0xd3d0, 0xc120, 0xc218, 0xc7a5, 0xb834, 0xd604, 0xd760, 0xb1e8, 0xb3d9, 0xc758,
	0xcc38, 0xc560, 0xc591, 0xb155, 0xb9c8, 0xc870, 0xc218, 0xc9c4, 0xc790, 0xc5ec, 0xbe48, 0xc601, 0xc720, 0xb0b4, 0xc5fc, 0xb300,
	0xc601, 0xcc38, 0xb1e8, 0xd655, 0xc601, 0xba74, 0xbe44, 0xb9c8, 0xc2ec, 0xd765, 0xb2c9, 0xb3c5, 0xb958, 0xc5f0, 0xb780, 0xc5f0,
	0xc0c1, 0xb839, 0xad50, 0xc591, 0xb780, 0xc12c, 0xc601, 0xc30d, 0xd734, 0xad8c, 0xbbf8, 0xb9ac, 0xb828, 0xc5c4, 0xcd09, 0xb780,
	0xc790, 0xd608, 0xad90, 0xad90, 0xacf5, 0xc789, 0xc790, 0xc790, 0xc874, 0xc190, 0xbd80, 0xd328, 0xc790, 0xd6a8, 0xc2e0, 0xb9f9,
	0xc0ac, 0xd0dc, 0xd3ec, 0xacc4, 0xace0, 0xb178, 0xd559, 0xc720, 0xc804, 0xd574, 0xc0b0, 0xc190, 0xc704, 0xba78, 0xc885, 0xac04,
	0xc219, 0xc794, 0xc544, 0xc790, 0xc758, 0xbd80, 0xc790, 0xb9ac, 0xd559, 0xbcbd, 0xc720, 0xb0b4, 0xc5bc, 0xc5bc, 0xc601, 0xc0b0,
	0xba74, 0xc800, 0xc6a9, 0xd0c0, 0xadc0, 0xd0dd, 0xad81, 0xc6b0, 0xc218, 0xc548, 0xac00, 0xc1a1, 0xc644, 0xc721, 0xc694, 0xad49,
	0xc758, 0xc815, 0xc900, 0xbcf5, 0xc8fc, 0xd0d5, 0xd6a1, 0xc885, 0xad00, 0xc8fc, 0xc815, 0xc644, 0xc758, 0xbcf4, 0xc2e4, 0xc2e4,
	0xcd1d, 0xc2ec, 0xac1d, 0xc120, 0xc2e4, 0xc720, 0xd658, 0xc774, 0xc870, 0xc2dc, 0xd5cc, 0xad81, 0xc131, 0xad70, 0xad81, 0xd6a8,
	0xc7ac, 0xc790, 0xd3ec, 0xd574, 0xc5f0, 0xc18c, 0xac00, 0xc2ec, 0xc2e0, 0xc6a9, 0xd669, 0xbc00, 0xad6c, 0xad00, 0xbe48, 0xc219,
	0xcc44, 0xc7a0, 0xc801, 0xc6d0, 0xae30, 0xc778, 0xbc00, 0xad6c, 0xac74, 0xcd94, 0xc815, 0xac74, 0xbd80, 0xb155, 0xbcd1, 0xd658,
	0xb9e4, 0xce68, 0xd55c, 0xc6b0, 0xc2dd, 0xb155, 0xce68, 0xb155, 0xce58, 0xc720, 0xbcf4, 0xad00, 0xb155, 0xce68, 0xb9c9, 0xcc30,
	0xad6c, 0xacfc, 0xce68, 0xd640, 0xc624, 0xc694, 0xc2e4, 0xb839, 0xcc44, 0xc2ec, 0xc704, 0xc0ac, 0xad00, 0xd61c, 0xb8cc, 0xc900,
	0xd658, 0xc608, 0xc758, 0xbcf4, 0xce5c, 0xcd1d, 0xbcf4, 0xd48d, 0xcd0c, 0xb300, 0xc0ac, 0xc2ec, 0xb3c4, 0xb960, 0xb300, 0xc218,
	0xd30c, 0xbd09, 0xbd80, 0xbd80, 0xc0ac, 0xadf9, 0xc7a5, 0xc7a5, 0xc804, 0xc704, 0xc874, 0xc2ec, 0xc8fc, 0xb300, 0xb3c4, 0xc18c,
	0xc808, 0xc18c, 0xc774, 0xc774, 0xc774, 0xc18c, 0xcca8, 0xc219, 0xc9c4, 0xc0c1, 0xc0c1, 0xb9c8, 0xac00, 0xc0c1, 0xb8cc, 0xc120,
	0xc120, 0xace4, 0xc655, 0xc655, 0xc6b0, 0xb8cc, 0xb8cc, 0xc694, 0xbc29, 0xc655, 0xc655, 0xc655, 0xac1c, 0xc694, 0xd0c0, 0xadc0,
	0xc885, 0xcde8, 0xac10, 0xace8, 0xcd94, 0xd1f4, 0xac10, 0xcd94, 0xc2dc, 0xc724, 0xcc99, 0xace0, 0xb2c8, 0xc9c4, 0xbbf8, 0xb1e8,
	0xad6d, 0xbe44, 0xce35, 0xd76c, 0xbe44, 0xac70, 0xacc4, 0xc804, 0xad74, 0xccb4, 0xacc4, 0xc625, 0xcd08, 0xc2dc, 0xc2dc, 0xbcd1,
	0xadf9, 0xc124, 0xc9c4, 0xd76c, 0xb2c8, 0xc804, 0xc11c, 0xcd0c, 0xb9cc, 0xc544, 0xb8e8, 0xbcd1, 0xccb4, 0xbe44, 0xc18d, 0xc12d,
	0xb3c4, 0xb8e8, 0xb8e8, 0xc0ac, 0xce35, 0xb9ac, 0xad6c, 0xc12d, 0xad6c, 0xad50, 0xb8cc, 0xad50, 0xc18d, 0xd76c, 0xc88c, 0xb454,
	0xc5ed, 0xc0b0, 0xc815, 0xc120, 0xb825, 0xc54c, 0xb3c4, 0xd68c, 0xd64d, 0xd758, 0xae30, 0xc778, 0xc62c, 0xd55c, 0xc2e0, 0xc11c,
	0xcd9c, 0xc138, 0xae30, 0xc778, 0xc6d4, 0xd310, 0xc694, 0xc559, 0xd558, 0xbb3c, 0xc808, 0xc555, 0xae09, 0xacac, 0xbd84, 0xc644,
	0xae30, 0xc7a0, 0xacb8, 0xae30, 0xcc28, 0xac1c, 0xad6c, 0xac15, 0xd604, 0xc624, 0xb78c, 0xb3c4, 0xd30c, 0xc791, 0xc791, 0xc559,
	0xac70, 0xac15, 0xac00, 0xad6c, 0xd608, 0xd30c, 0xb9bd, 0xcd08, 0xc800, 0xc554, 0xbd88, 0xc218, 0xac11, 0xb839, 0xd0c0, 0xbe44,
	0xc720, 0xb300, 0xd56d, 0xc545, 0xad6c, 0xd638, 0xbc31, 0xbbfc, 0xc548, 0xcd08, 0xb839, 0xc9c0, 0xd3c9, 0xb3d9, 0xc810, 0xaddc,
	0xc218, 0xbb18, 0xb3d9, 0xd559, 0xc5ed, 0xbcc0, 0xd569, 0xd569, 0xb77d, 0xc561, 0xbd80, 0xc21c, 0xc9c8, 0xb960, 0xc740, 0xc774,
	0xd574, 0xc804, 0xb3d9, 0xc774, 0xbaa8, 0xac15, 0xc548, 0xc704, 0xd658, 0xce58, 0xbc00, 0xb9ac, 0xacc4, 0xb3d9, 0xc678, 0xc6b0,
	0xc0c1, 0xd611, 0xb9ac, 0xc694, 0xad50, 0xc7c1, 0xb9cc, 0xad50, 0xc544, 0xc544, 0xc695, 0xc0ac, 0xd3ec, 0xcd08, 0xade0, 0xbd09,
	0xbd09, 0xb178, 0xb9ac, 0xc720, 0xd604, 0xd6a1, 0xb3c4, 0xc2e0, 0xc131, 0xb3c4, 0xacbd, 0xc900, 0xd638, 0xd611, 0xc740, 0xc5b4,
	0xb791, 0xac10, 0xb85c, 0xb798, 0xd5d8, 0xac01, 0xacf5, 0xc22d, 0xd654, 0xb2f5, 0xb9bc, 0xd654, 0xac70, 0xb798, 0xae30, 0xbbfc,
	0xace4, 0xace4, 0xc904, 0xace0, 0xcd5c, 0xc560, 0xc560, 0xac15, 0xb95c, 0xb95c, 0xb989, 0xad74, 0xd0c0, 0xc7c1, 0xacfd, 0xc74c,
	0xb3d9, 0xc7c1, 0xc7c1, 0xc704, 0xd6a8, 0xbe44, 0xc5c4, 0xc22d, 0xcca9, 0xbd95, 0xc904, 0xad74, 0xb3d9, 0xcc38, 0xace0, 0xc74c,
	0xce58, 0xc989, 0xd669, 0xc720, 0xc678, 0xc591, 0xbd09, 0xcd94, 0xb3c8, 0xccb4, 0xc774, 0xce58, 0xc2dc, 0xc7ac, 0xc694, 0xc545,
	0xc8fc, 0xac10, 0xb960, 0xc5b8, 0xbbf8, 0xac10, 0xd61c, 0xd61c, 0xc644, 0xc815, 0xc2b9, 0xbbf8, 0xac10, 0xbb34, 0xc6b0, 0xc885,
	0xb78c, 0xac08, 0xc554, 0xc554, 0xc678, 0xc885, 0xc0ac, 0xc138, 0xc601, 0xacfc, 0xae08, 0xc720, 0xae30, 0xb8e8, 0xb3c4, 0xd1f4,
	0xacc4, 0xc639, 0xcc3d, 0xb2f9, 0xd615, 0xac78, 0xc560, 0xb958, 0xc624, 0xc22d, 0xace0, 0xc790, 0xc678, 0xd33d, 0xc804, 0xcc28,
	0xacb8, 0xc6a9, 0xc5bc, 0xcc28, 0xcc99, 0xc2dc, 0xc57d, 0xc885, 0xc885, 0xac15, 0xad50, 0xac15, 0xc0b0, 0xccb4, 0xcc38, 0xc815,
	0xb3c4, 0xb8e8, 0xc7a5, 0xcc38, 0xcc38, 0xc624, 0xc870, 0xad6c, 0xc7a5, 0xcde8, 0xcc38, 0xb3c4, 0xb3c4, 0xc2b5, 0xc704, 0xbc30,
	0xb96d, 0xc0c1, 0xc99d, 0xd30c, 0xae08, 0xcd08, 0xc5c4, 0xb85c, 0xc794, 0xb9b0, 0xb8cc, 0xb8cc, 0xce68, 0xb4f1, 0xd0c0, 0xc900,
	0xad50, 0xad90, 0xc694, 0xcd08, 0xc694, 0xad90, 0xcca8, 0xc5ed, 0xd559, 0xb18d, 0xc5c5, 0xc5c5, 0xc758, 0xc54c, 0xd5d8, 0xc9d1,
	0xd574, 0xac08, 0xc218, 0xc9c0, 0xc624, 0xc8c4, 0xbbf8, 0xc758, 0xc601, 0xb3c4, 0xb839, 0xc808, 0xc11c, 0xc545, 0xc740, 0xc218,
	0xcc30, 0xb824, 0xd734, 0xb871, 0xb871, 0xc804, 0xc601, 0xd76c, 0xad6d, 0xcc38, 0xc601, 0xaddc, 0xc554, 0xc678, 0xb178, 0xad8c,
	0xcd08, 0xcc2c, 0xb9cc, 0xc804, 0xc804, 0xc5bc, 0xc554, 0xc554, 0xd5cc, 0xb178, 0xd5cc, 0xcc9c, 0xad34, 0xcc9c, 0xc8fc, 0xd669,
	0xacbd, 0xc21c, 0xc18c, 0xc18c, 0xb835, 0xacf5, 0xc88c, 0xad50, 0xac70, 0xacf5, 0xac71, 0xbb34, 0xbd80, 0xbd80, 0xcc28, 0xad6c,
	0xad6c, 0xae30, 0xc774, 0xc0ac, 0xd30c, 0xce58, 0xc18c, 0xd56d, 0xc774, 0xadfc, 0xc190, 0xad8c, 0xd31f, 0xc190, 0xac74, 0xbd88,
	0xc7a1, 0xc7a1, 0xc2dc, 0xd3ec, 0xc815, 0xc218, 0xbc94, 0xb151, 0xc0ac, 0xbd84, 0xd30c, 0xc9c0, 0xd76c, 0xd638, 0xb2f4, 0xc704,
	0xc7a5, 0xd0d5, 0xb300, 0xb9d0, 0xd53c, 0xb9d0, 0xcca9, 0xbd88, 0xb834, 0xc9c8, 0xcd94, 0xbc31, 0xce58, 0xc81c, 0xb9e5, 0xc5ed,
	0xc608, 0xbcd1, 0xac11, 0xad8c, 0xb140, 0xc218, 0xb300, 0xc815, 0xc138, 0xcd08, 0xc9c4, 0xc0ac, 0xad70, 0xc11d, 0xbc29, 0xb300,
	0xadc0, 0xc8fc, 0xbcd1, 0xc7a5, 0xc804, 0xc644, 0xb300, 0xc720, 0xc0c1, 0xc0bd, 0xae30, 0xcc45, 0xad35, 0xbaa8, 0xb3c4, 0xd6c4,
	0xc815, 0xc218, 0xba71, 0xc704, 0xc545, 0xd3ed, 0xac1c, 0xbc29, 0xbcd1, 0xb151, 0xacf5, 0xbc18, 0xd669, 0xb3c4, 0xba71, 0xac00,
	0xb4f1, 0xd718, 0xc885, 0xc0bc, 0xb9cc, 0xb9c9, 0xd45c, 0xad35, 0xcc45, 0xb9c9, 0xbc29, 0xc7a5, 0xacbd, 0xcc9c, 0xbcf5, 0xce58,
	0xbb34, 0xbc88, 0xb2f9, 0xd3d0, 0xd3d0, 0xc7a5, 0xba71, 0xc870, 0xcca8, 0xbd84, 0xbabd, 0xbc29, 0xc8fc, 0xba78, 0xc8fc, 0xc808,
	0xd5cc, 0xb780, 0xac04, 0xd3c9, 0xb144, 0xacac, 0xbcd1, 0xbcd1, 0xd589, 0xac04, 0xc694, 0xd658, 0xc720, 0xc720, 0xae30, 0xc5c4,
	0xbe44, 0xccad, 0xce21, 0xad11, 0xc7a5, 0xc800, 0xacbd, 0xbe44, 0xae08, 0xb3c8, 0xc0c1, 0xae30, 0xc544, 0xd754, 0xac1c, 0xc11c,
	0xb824, 0xbb34, 0xc555, 0xace0, 0xc751, 0xc800, 0xd3ec, 0xc810, 0xc555, 0xbb18, 0xacbd, 0xc790, 0xbd80, 0xb3d9, 0xbc29, 0xd3d0,
	0xc0c1, 0xc758, 0xc9c8, 0xc870, 0xce58, 0xd734, 0xb3c4, 0xc88c, 0xd6a8, 0xb3c4, 0xae30, 0xace0, 0xbc29, 0xc815, 0xc720, 0xd3ec,
	0xbcd1, 0xb989, 0xb798, 0xbe44, 0xc801, 0xc554, 0xc11c, 0xac15, 0xc6a9, 0xd0c1, 0xc1a1, 0xc11c, 0xacbd, 0xc6b0, 0xc720, 0xbb18,
	0xc218, 0xce21, 0xc0c1, 0xd3d0, 0xad6c, 0xd569, 0xc678, 0xb958, 0xd558, 0xb834, 0xb791, 0xc218, 0xce58, 0xbd80, 0xacbd, 0xad6c,
	0xad6c, 0xadfc, 0xc624, 0xd655, 0xb8e8, 0xc74c, 0xb8cc, 0xb300, 0xb85d, 0xc774, 0xc8fc, 0xc804, 0xb3c4, 0xc2dc, 0xd760, 0xbb18,
	0xcc3d, 0xbb34, 0xd3d0, 0xad11, 0xacf3, 0xad34, 0xbcbd, 0xc7a5, 0xd574, 0xb984, 0xb984, 0xb8cc, 0xb824, 0xc801, 0xc601, 0xc120,
	0xccad, 0xc639, 0xb824, 0xccad, 0xc778, 0xc21c, 0xc5f0, 0xc815, 0xc801, 0xbc15, 0xac74, 0xd68c, 0xb0b4, 0xd68c, 0xacf5, 0xc785,
	0xac1c, 0xbcc0, 0xc774, 0xae30, 0xb871, 0xbd84, 0xac70, 0xac10, 0xd601, 0xc7a5, 0xd3d0, 0xc775, 0xc77c, 0xc774, 0xc0bc, 0xc2dd,
	0xc774, 0xc2dc, 0xc2dc, 0xad81, 0xc870, 0xc778, 0xd638, 0xbd88, 0xd64d, 0xc624, 0xd1f4, 0xc774, 0xac15, 0xd30c, 0xc2e0, 0xc81c,
	0xc7a5, 0xad74, 0xb3c4, 0xbd80, 0xc800, 0xbbf8, 0xd604, 0xd638, 0xcd08, 0xb178, 0xacbd, 0xc9c4, 0xc774, 0xbbf8, 0xd658, 0xb9cc,
	0xc18c, 0xc57d, 0xd604, 0xacbd, 0xb3c8, 0xc7a5, 0xac15, 0xac15, 0xbd95, 0xd0c4, 0xac15, 0xd544, 0xd544, 0xc12d, 0xd0c4, 0xac74,
	0xad6c, 0xac00, 0xbc1c, 0xd544, 0xad6c, 0xc804, 0xbcc4, 0xc18c, 0xd0c4, 0xd655, 0xac15, 0xd6a1, 0xbbf8, 0xd655, 0xb9cc, 0xd655,
	0xacc4, 0xacc4, 0xadc0, 0xb2f9, 0xb85d, 0xb85d, 0xb2e8, 0xd61c, 0xccb4, 0xd718, 0xd718, 0xc774, 0xc774, 0xc774, 0xc774, 0xd655,
	0xd655, 0xc0bc, 0xd615, 0xbb38, 0xb3d9, 0xc5b8, 0xc5b8, 0xc6b1, 0xb9ac, 0xcc44, 0xd45c, 0xc870, 0xbe48, 0xd33d, 0xc6a9, 0xd45c,
	0xcc3d, 0xc601, 0xb9ac, 0xcc99, 0xbc15, 0xd0c0, 0xae09, 0xbc29, 0xc1a1, 0xc5ed, 0xc655, 0xcca0, 0xd53c, 0xc9c0, 0xb839, 0xbd88,
	0xc655, 0xc815, 0xc870, 0xc655, 0xacbd, 0xb300, 0xc11c, 0xc21c, 0xd754, 0xc591, 0xd68c, 0xb960, 0xd6c4, 0xb960, 0xc815, 0xcc99,
	0xc11c, 0xacbd, 0xb3c4, 0xc885, 0xc885, 0xb798, 0xc885, 0xb4dd, 0xbc30, 0xc0ac, 0xb828, 0xae30, 0xc0c1, 0xce58, 0xc885, 0xc8fc,
	0xb798, 0xc5b4, 0xc12d, 0xcc28, 0xac74, 0xc2dc, 0xac00, 0xd3b8, 0xd669, 0xbcf5, 0xc21c, 0xc704, 0xbc29, 0xc694, 0xbbf8, 0xd61c,
	0xc815, 0xd45c, 0xc81c, 0xb355, 0xc9d5, 0xc9d5, 0xbcc4, 0xb355, 0xc885, 0xcca0, 0xc694, 0xc678, 0xc694, 0xd718, 0xbbf8, 0xb8e1,
	0xc591, 0xd3ec, 0xad6c, 0xc2ec, 0xc2ec, 0xd544, 0xc5b5, 0xb975, 0xc778, 0xb3c4, 0xc815, 0xac1c, 0xae30, 0xc778, 0xc778, 0xcc9c,
	0xd0d0, 0xd2b9, 0xd2b9, 0xac04, 0xd758, 0xd0dc, 0xcd0c, 0xc9c0, 0xb9dd, 0xb9dd, 0xd61c, 0xbc94, 0xc751, 0xcca8, 0xbbfc, 0xbbfc,
	0xcda9, 0xcda9, 0xc624, 0xae09, 0xc624, 0xd76c, 0xac1c, 0xc6b0, 0xc644, 0xcd1d, 0xc885, 0xcf8c, 0xc5ec, 0xbcc0, 0xae30, 0xc9c0,
	0xcdcc, 0xce68, 0xd0dc, 0xb3c8, 0xac80, 0xb150, 0xd63c, 0xd749, 0xb274, 0xc655, 0xd5d8, 0xd754, 0xac15, 0xd640, 0xd788, 0xbd84,
	0xbd80, 0xd0dc, 0xc885, 0xbb34, 0xc6b0, 0xcc3d, 0xcc3d, 0xac70, 0xc608, 0xd3ec, 0xcd08, 0xbbfc, 0xbe44, 0xc791, 0xc998, 0xc559,
	0xad6c, 0xbc18, 0xb85c, 0xb178, 0xc815, 0xd30c, 0xd3ec, 0xcca9, 0xace0, 0xd638, 0xc800, 0xb2ec, 0xb839, 0xc0ac, 0xc8fc, 0xc81c,
	0xd0dc, 0xc774, 0xb3cc, 0xc6b0, 0xbd80, 0xae09, 0xd3c9, 0xc131, 0xc6d0, 0xb2c8, 0xad34, 0xbd88, 0xd76c, 0xd544, 0xc720, 0xac81,
	0xd604, 0xcd1d, 0xbcd1, 0xd669, 0xc6d4, 0xcd9c, 0xd53c, 0xcd9c, 0xc2e4, 0xd0c4, 0xc601, 0xcd1d, 0xb300, 0xb9d0, 0xae30, 0xc5ed,
	0xce58, 0xc784, 0xc21c, 0xc2dc, 0xd790, 0xb85c, 0xd56d, 0xad11, 0xbaa8, 0xc9c0, 0xd611, 0xb828, 0xc870, 0xd669, 0xc9c8, 0xd638,
	0xacf5, 0xada4, 0xd56d, 0xc11c, 0xad50, 0xc11c, 0xc0ac, 0xacfc, 0xaddc, 0xc591, 0xc5d0, 0xd68c, 0xce59, 0xad04, 0xc774, 0xd749,
	0xad34, 0xb9b0, 0xd68c, 0xc790, 0xd73c, 0xce58, 0xc0c1, 0xb275, 0xd55c, 0xc740, 0xac01, 0xd1b5, 0xb150, 0xacf5, 0xc804, 0xc2dd,
	0xd761, 0xc5f4, 0xbcd1, 0xac04, 0xb355, 0xd61c, 0xc545, 0xaddc, 0xd1b5, 0xc5fc, 0xac1c, 0xce21, 0xb1cc, 0xc6b4, 0xb9dd, 0xc6a9,
	0xc6a9, 0xc5f0, 0xbe44, 0xace4, 0xcd08, 0xc5f4, 0xc5ec, 0xc11c, 0xacc4, 0xc2e4, 0xcca0, 0xb9b0, 0xc81c, 0xd55c, 0xd638, 0xd611,
	0xcc99, 0xd3ec, 0xc74d, 0xacac, 0xd68c, 0xd76c, 0xd328, 0xbb38, 0xc608, 0xd615, 0xc1a1, 0xc804, 0xc815, 0xb9ac, 0xc624, 0xc624,
	0xc720, 0xb9ac, 0xb7c9, 0xd658, 0xcd1d, 0xc5b5, 0xc5f4, 0xb9ac, 0xb2c8, 0xb1cc, 0xc545, 0xac01, 0xd604, 0xac04, 0xc624, 0xbbfc,
	0xc885, 0xbe44, 0xbe44, 0xb355, 0xcdcc, 0xcc3d, 0xbbfc, 0xb824, 0xacc4, 0xad00, 0xad00, 0xd589, 0xb3c4, 0xcc98, 0xacf5, 0xcca8,
	0xb860, 0xc11d, 0xac10, 0xace4, 0xb141, 0xc815, 0xcd94, 0xb3c8, 0xacfc, 0xcca8, 0xb7c9, 0xc644, 0xc6d0, 0xae08, 0xae30, 0xb78c,
	0xcc3d, 0xd639, 0xd654, 0xad8c, 0xb2f4, 0xcc99, 0xcc99, 0xb151, 0xb9dd, 0xcca0, 0xd640, 0xd63c, 0xc11d, 0xcc3d, 0xd754, 0xc720,
	0xd61c, 0xc545, 0xc1c4, 0xcd1d, 0xd604, 0xc218, 0xc810, 0xad6c, 0xcc38, 0xc9d5, 0xb355, 0xbe44, 0xd611, 0xcc38, 0xd0c4, 0xad00,
	0xd0c0, 0xb1cc, 0xc6b4, 0xc0c1, 0xcdcc, 0xcca9, 0xd669, 0xc900, 0xacbd, 0xc57c, 0xc131, 0xce21, 0xd3b8, 0xd63c, 0xc218, 0xc81c,
	0xcd08, 0xc218, 0xbc1c, 0xc120, 0xc678, 0xaca9, 0xac74, 0xc704, 0xc720, 0xc720, 0xd54d, 0xd6e4, 0xd658, 0xbbfc, 0xd345, 0xc758,
	0xba74, 0xc6a9, 0xac8c, 0xc0c1, 0xc74c, 0xc545, 0xc2ec, 0xbb34, 0xac00, 0xac01, 0xc6b0, 0xc560, 0xd611, 0xc5b8, 0xc5f0, 0xac10,
	0xc628, 0xcd1d, 0xc0c8, 0xb989, 0xbd84, 0xc601, 0xada4, 0xad34, 0xac01, 0xacf5, 0xc6b4, 0xc18c, 0xc18c, 0xae30, 0xc694, 0xc1a1,
	0xd669, 0xc9c8, 0xace8, 0xad6c, 0xcc3d, 0xb2c9, 0xd611, 0xac1c, 0xc815, 0xc6a9, 0xcd08, 0xc190, 0xc2e0, 0xbc15, 0xac1c, 0xc6d0,
	0xd574, 0xd754, 0xc6a9, 0xc559, 0xb960, 0xc18c, 0xb3c4, 0xc740, 0xc790, 0xd735, 0xacb8, 0xd0dc, 0xd669, 0xc628, 0xc2e0, 0xba85,
	0xacf5, 0xc12d, 0xc885, 0xd45c, 0xbaa8, 0xbaa8, 0xad35, 0xce59, 0xcc38, 0xcc38, 0xcc38, 0xcd5c, 0xbbfc, 0xd2b9, 0xc7a5, 0xd1b5,
	0xc624, 0xc0c1, 0xb9cc, 0xad00, 0xac01, 0xc870, 0xad6c, 0xd61c, 0xac1c, 0xb828, 0xc6b0, 0xc885, 0xadfc, 0xc740, 0xb824, 0xc0c1,
	0xc704, 0xb2e8, 0xb9cc, 0xac04, 0xc2b5, 0xc6a9, 0xacbd, 0xac15, 0xc81c, 0xc9d1, 0xb8e8, 0xad8c, 0xcc99, 0xcc99, 0xc695, 0xbe59,
	0xb8cc, 0xcd1d, 0xc6b0, 0xc6a9, 0xce58, 0xd1b5, 0xb2f9, 0xac8c, 0xd5c8, 0xd33d, 0xbe44, 0xbcc4, 0xc21c, 0xad50, 0xc99d, 0xc81c,
	0xb828, 0xbe59, 0xada4, 0xd61c, 0xcd08, 0xc9d5, 0xc740, 0xc740, 0xd76c, 0xd76c, 0xd0c4, 0xb2f4, 0xd0c0, 0xb300, 0xb300, 0xc18d,
	0xad90, 0xcc45, 0xd6a8, 0xbc18, 0xbd84, 0xb85c, 0xb85c, 0xb3d9, 0xac10, 0xac8c, 0xd55c, 0xbbfc, 0xacbd, 0xb8cc, 0xbb34, 0xcc38,
	0xd73c, 0xcd94, 0xd5cc, 0xc2ec, 0xc2b9, 0xbcbd, 0xc5b5, 0xcd08, 0xc12c, 0xb1cc, 0xb2f4, 0xd0c4, 0xacbd, 0xc1a1, 0xac10, 0xc694,
	0xc678, 0xd658, 0xb3d9, 0xadfc, 0xadfc, 0xac70, 0xc870, 0xac04, 0xd574, 0xc751, 0xc624, 0xbb34, 0xc5ed, 0xb984, 0xc0c9, 0xc900,
	0xd68c, 0xbb38, 0xb77c, 0xc560, 0xb984, 0xc5fc, 0xad04, 0xd558, 0xccb4, 0xc5ec, 0xc740, 0xb300, 0xbabd, 0xc560, 0xbabd, 0xb300,
	0xc81c, 0xb9c8, 0xb78c, 0xbb38, 0xc8fc, 0xce58, 0xb098, 0xb098, 0xc5fc, 0xc591, 0xbc15, 0xce58, 0xad11, 0xad11, 0xc6b0, 0xbd80,
	0xb958, 0xba78, 0xc9d5, 0xd61c, 0xcc38, 0xbabd, 0xb77c, 0xd68c, 0xd604, 0xc591, 0xcc38, 0xae30, 0xad6c, 0xd658, 0xc12d, 0xc758,
	0xb828, 0xb09c, 0xb9c8, 0xb2f9, 0xd655, 0xb2f9, 0xb2f9, 0xb2f9, 0xacfc, 0xc6d4, 0xbb34, 0xc794, 0xc220, 0xc218, 0xc735, 0xd76c,
	0xc131, 0xc544, 0xacc4, 0xac00, 0xc794, 0xc7a5, 0xd639, 0xcc3d, 0xc804, 0xb3d9, 0xcc99, 0xc54c, 0xc9c8, 0xc801, 0xc54c, 0xadf9,
	0xc2dc, 0xac10, 0xc9d1, 0xaddc, 0xac1c, 0xb4f1, 0xc804, 0xcc3d, 0xac00, 0xc804, 0xc808, 0xc5ed, 0xc804, 0xc778, 0xb959, 0xd76c,
	0xc804, 0xd76c, 0xd76c, 0xcc29, 0xb300, 0xad6c, 0xd638, 0xd638, 0xd638, 0xc561, 0xc0ac, 0xd0dc, 0xbb18, 0xd638, 0xb824, 0xbc29,
	0xc18c, 0xd3b8, 0xc810, 0xacbd, 0xc0c1, 0xc774, 0xc758, 0xc120, 0xd638, 0xbe44, 0xc5fc, 0xc218, 0xc218, 0xc7ac, 0xcc30, 0xad6c,
	0xb975, 0xbcf5, 0xbc30, 0xd0c0, 0xc789, 0xbd88, 0xc785, 0xc7ac, 0xd0c1, 0xc7a5, 0xc791, 0xac15, 0xc6b0, 0xc6b0, 0xd55c, 0xc2e0,
	0xcc28, 0xd0c0, 0xd758, 0xad6c, 0xc62c, 0xb3c8, 0xcc9c, 0xc9d1, 0xc778, 0xd655, 0xbb38, 0xc18c, 0xc591, 0xb274, 0xbd84, 0xcc28,
	0xc6b0, 0xae09, 0xae08, 0xbc18, 0xac08, 0xc5b4, 0xbd80, 0xc624, 0xc11d, 0xbe44, 0xc9c0, 0xc790, 0xc561, 0xb3c8, 0xc870, 0xc2b9,
	0xae30, 0xc5f0, 0xad11, 0xbcc0, 0xcd08, 0xad6c, 0xbb38, 0xace8, 0xc6d4, 0xacb0, 0xd30c, 0xce68, 0xce68, 0xc2b9, 0xc6b4, 0xc644,
	0xb20c, 0xc5b5, 0xc11c, 0xc870, 0xbd80, 0xd22c, 0xb450, 0xd56d, 0xc808, 0xbd80, 0xbb34, 0xd3ec, 0xbc1c, 0xc694, 0xd0dd, 0xb2e8,
	0xad6c, 0xb95c, 0xcc3d, 0xade0, 0xd638, 0xbcf4, 0xbcd1, 0xc9c0, 0xd3c9, 0xc5fc, 0xd3ec, 0xd53c, 0xd0dc, 0xc720, 0xc9c4, 0xc800,
	0xc559, 0xd3ec, 0xd558, 0xb2c8, 0xc124, 0xc800, 0xc9c8, 0xbe44, 0xc7a1, 0xb9d0, 0xb9e4, 0xc2e0, 0xc555, 0xcd94, 0xac81, 0xbbfc,
	0xcd95, 0xac00, 0xbd88, 0xc794, 0xc8fc, 0xb2e8, 0xd0c1, 0xbb34, 0xb150, 0xb78d, 0xbd80, 0xd3ec, 0xbc18, 0xbc15, 0xb839, 0xb77c,
	0xad34, 0xacb8, 0xac70, 0xcc99, 0xbc1c, 0xd0c0, 0xd0c0, 0xc694, 0xad6c, 0xc878, 0xbcc0, 0xcd08, 0xbc30, 0xbc30, 0xc800, 0xc758,
	0xac70, 0xd655, 0xb871, 0xac04, 0xc7a1, 0xc639, 0xb780, 0xb155, 0xbc1c, 0xd0dd, 0xcc9c, 0xd754, 0xad04, 0xc2dd, 0xae38, 0xc99d,
	0xb2d8, 0xacf5, 0xacf5, 0xad8c, 0xc804, 0xc874, 0xcc30, 0xace0, 0xce58, 0xd611, 0xcc45, 0xd68c, 0xd3c9, 0xc608, 0xc2b5, 0xb098,
	0xbcbd, 0xc9c0, 0xad18, 0xc9c8, 0xd655, 0xd0c0, 0xd0c0, 0xc9c0, 0xc124, 0xc548, 0xb871, 0xc9c4, 0xaca9, 0xad50, 0xace0, 0xb3d9,
	0xb098, 0xb3c4, 0xb82c, 0xcc28, 0xb824, 0xc811, 0xc54c, 0xacb0, 0xb82c, 0xac70, 0xc9c0, 0xb828, 0xc544, 0xacfc, 0xb2ec, 0xd611,
	0xc694, 0xb2f9, 0xad50, 0xc7c1, 0xc81c, 0xd63c, 0xc7a0, 0xc6b0, 0xc560, 0xc138, 0xb098, 0xc88c, 0xbc1c, 0xacbd, 0xccb4, 0xc9c4,
	0xc815, 0xc0ac, 0xc0ac, 0xacbd, 0xb9e4, 0xb871, 0xad6d, 0xbc29, 0xacac, 0xc74d, 0xc815, 0xc5f0, 0xb1cc, 0xb9cc, 0xd611, 0xc0bd,
	0xbd09, 0xace4, 0xc624, 0xad70, 0xad6c, 0xd1b5, 0xace4, 0xd601, 0xb3c4, 0xcc29, 0xbd80, 0xb784, 0xd314, 0xd55c, 0xc18c, 0xb0a0,
	0xc5f0, 0xce21, 0xc1a1, 0xc57c, 0xac01, 0xd3ec, 0xc644, 0xcc99, 0xc900, 0xc608, 0xc7ac, 0xb824, 0xc218, 0xd0c8, 0xb85c, 0xc190,
	0xbcd1, 0xac80, 0xd658, 0xb3c4, 0xbbf8, 0xc644, 0xae08, 0xbd09, 0xc0ac, 0xb82c, 0xbbfc, 0xbb38, 0xbd80, 0xd328, 0xac70, 0xb3c4,
	0xc640, 0xc560, 0xad8c, 0xc545, 0xcd1d, 0xc804, 0xcd94, 0xcca9, 0xd0dc, 0xbd84, 0xb0a0, 0xb150, 0xb1cc, 0xc878, 0xc54c, 0xc11c,
	0xd754, 0xc7c1, 0xc810, 0xc18c, 0xb95c, 0xccad, 0xac15, 0xcca0, 0xc218, 0xb3c4, 0xbd80, 0xc800, 0xc7a5, 0xd63c, 0xae30, 0xb3c4,
	0xacb9, 0xae30, 0xbc30, 0xc219, 0xacac, 0xb989, 0xc561, 0xc544, 0xad74, 0xc7c1, 0xb7c9, 0xad18, 0xc608, 0xd639, 0xc12c, 0xc815,
	0xb7b5, 0xcc44, 0xd0d0, 0xccb4, 0xbd95, 0xc811, 0xcc99, 0xacf5, 0xcd94, 0xc5c4, 0xc870, 0xcd94, 0xad6d, 0xcca8, 0xacac, 0xae0d,
	0xbc30, 0xc218, 0xac8c, 0xb85c, 0xad35, 0xba85, 0xacbd, 0xcc99, 0xd0c4, 0xb9f9, 0xc12c, 0xc18c, 0xad00, 0xd33d, 0xc5f0, 0xb099,
	0xac04, 0xc815, 0xcd94, 0xc804, 0xc720, 0xc5f0, 0xaddc, 0xb0a8, 0xd6a1, 0xc720, 0xbcbd, 0xc678, 0xc2dc, 0xc8fc, 0xc120, 0xbb18,
	0xc81c, 0xc5f4, 0xc0bd, 0xc2dc, 0xcd1d, 0xce68, 0xc74d, 0xc21c, 0xd669, 0xd3b8, 0xc591, 0xd658, 0xc5c4, 0xc7a0, 0xc554, 0xc11c,
	0xc54c, 0xc545, 0xac1d, 0xcdcc, 0xc989, 0xccb4, 0xb784, 0xb784, 0xc815, 0xac1c, 0xcd94, 0xcd94, 0xb3cc, 0xac8c, 0xd718, 0xae0d,
	0xcda9, 0xc0ad, 0xc124, 0xc124, 0xc6d0, 0xac74, 0xc57c, 0xc0bd, 0xc0ac, 0xbc30, 0xc694, 0xba78, 0xcc9c, 0xb78c, 0xc628, 0xd760,
	0xcc38, 0xac01, 0xb8e8, 0xcd1d, 0xae0d, 0xad50, 0xad6c, 0xae08, 0xc6a9, 0xac01, 0xcd94, 0xccb4, 0xc804, 0xc190, 0xc190, 0xbc15,
	0xd735, 0xc6a9, 0xbc29, 0xcc28, 0xc18c, 0xac11, 0xc694, 0xb3c4, 0xc9c0, 0xb179, 0xb78d, 0xb834, 0xc218, 0xad6c, 0xace0, 0xd5cc,
	0xc0ad, 0xc0c1, 0xc9c4, 0xba78, 0xc561, 0xcd94, 0xb2c9, 0xc120, 0xd0d1, 0xac78, 0xb2f9, 0xbc18, 0xbc18, 0xd0d1, 0xb960, 0xb3c4,
	0xace8, 0xce58, 0xc640, 0xd560, 0xac74, 0xc628, 0xcc3d, 0xc804, 0xc9c4, 0xaca9, 0xd734, 0xb2c9, 0xad8c, 0xcc28, 0xcc29, 0xaca9,
	0xc624, 0xc740, 0xc12d, 0xac15, 0xc12d, 0xd130, 0xd30c, 0xc694, 0xbe48, 0xc218, 0xd0c4, 0xc0b4, 0xc0b0, 0xc219, 0xaddc, 0xc6a9,
	0xcc3d, 0xad35, 0xbcd1, 0xbd09, 0xc194, 0xc81c, 0xccb4, 0xc218, 0xc801, 0xb828, 0xb2f9, 0xb9ac, 0xad00, 0xb85d, 0xb77c, 0xb8e8,
	0xcd1d, 0xac1c, 0xd638, 0xc0ac, 0xcc3d, 0xd0d5, 0xd654, 0xcd5c, 0xb0b4, 0xb9c8, 0xc7a5, 0xaddc, 0xc601, 0xcc99, 0xc624, 0xc9c0,
	0xccb4, 0xb9cc, 0xcc38, 0xad6c, 0xc800, 0xc0c9, 0xb2e8, 0xcd08, 0xbaa8, 0xbaa8, 0xc811, 0xc12c, 0xacbd, 0xd45c, 0xac15, 0xc74c,
	0xad6c, 0xacac, 0xb7b5, 0xaca9, 0xc601, 0xada4, 0xb0b4, 0xbcc4, 0xb85c, 0xb3c8, 0xd55c, 0xc5f0, 0xadc0, 0xc7a0, 0xc758, 0xc7a0,
	0xd0f1, 0xd0f1, 0xc0b4, 0xc694, 0xd6a1, 0xc11c, 0xac10, 0xad11, 0xd0d1, 0xc900, 0xb144, 0xb9b0, 0xc99d, 0xd718, 0xb2f9, 0xad50,
	0xadf9, 0xc12c, 0xd0d0, 0xd0c4, 0xcca0, 0xbc1c, 0xcc28, 0xc808, 0xcd08, 0xb8cc, 0xbd84, 0xbb34, 0xd6a8, 0xd30c, 0xcd2c, 0xcc29,
	0xcc2c, 0xd0c0, 0xbc15, 0xd760, 0xb3c8, 0xb828, 0xd68d, 0xd790, 0xb85c, 0xad50, 0xcc2c, 0xb2ec, 0xac10, 0xad50, 0xacfc, 0xac80,
	0xac04, 0xc639, 0xb8b0, 0xb0ad, 0xb85c, 0xcc9c, 0xcc29, 0xd0dd, 0xbc15, 0xcc29, 0xaca9, 0xb2f9, 0xc0c9, 0xc870, 0xacbd, 0xacbd,
	0xd658, 0xc811, 0xae08, 0xd68c, 0xb2f4, 0xd734, 0xac08, 0xbcbd, 0xbcbd, 0xc624, 0xac70, 0xc5fd, 0xc54c, 0xb9f9, 0xc218, 0xbbf8,
	0xc81c, 0xb300, 0xd0c1, 0xb3c4, 0xd615, 0xb78c, 0xcc30, 0xac70, 0xc57c, 0xc720, 0xc5fd, 0xc5fd, 0xc758, 0xd654, 0xc808, 0xbe48,
	0xb155, 0xac01, 0xcc99, 0xc990, 0xd655, 0xb9c8, 0xc804, 0xd790, 0xb835, 0xd0c4, 0xd30c, 0xc218, 0xb85c, 0xb825, 0xc694, 0xc801,
	0xbc18, 0xc591, 0xb8b0, 0xcc30, 0xd130, 0xcc2c, 0xb828, 0xd5cc, 0xad70, 0xd655, 0xb825, 0xb784, 0xd658, 0xc601, 0xb85c, 0xb871,
	0xac74, 0xac70, 0xcc2c, 0xac74, 0xb780, 0xc12c, 0xc601, 0xbbf8, 0xc591, 0xcc38, 0xc601, 0xcc2c, 0xd734, 0xc12d, 0xb77c, 0xad70,
	0xbbf8, 0xb9ac, 0xcc2c, 0xb828, 0xd0c4, 0xcd2c, 0xb824, 0xc804, 0xc640, 0xb2f9, 0xad50, 0xd655, 0xb78c, 0xb77c, 0xb0ad, 0xc9c0,
	0xae30, 0xada4, 0xae30, 0xc2ec, 0xbcf5, 0xbcf5, 0xc218, 0xace0, 0xc720, 0xac1c, 0xc774, 0xacf5, 0xac04, 0xbc18, 0xbc29, 0xc815,
	0xbc15, 0xcca8, 0xad6c, 0xbbfc, 0xbb34, 0xace0, 0xac11, 0xcc45, 0xd6a8, 0xbbf8, 0xcd95, 0xaca9, 0xd65c, 0xc11c, 0xad50, 0xbbfc,
	0xc9c4, 0xad6c, 0xc2e0, 0xd0c8, 0xc5b4, 0xce59, 0xc624, 0xd328, 0xc11c, 0xad50, 0xd0c8, 0xb834, 0xb151, 0xd3d0, 0xcc3d, 0xc804,
	0xcca0, 0xc774, 0xac10, 0xc0b0, 0xacfc, 0xc5fc, 0xb3c8, 0xae30, 0xd22c, 0xd6a8, 0xcca0, 0xad50, 0xacbd, 0xc591, 0xd569, 0xbbfc,
	0xc218, 0xc560, 0xace0, 0xc560, 0xc815, 0xc801, 0xc9c4, 0xbd80, 0xc218, 0xb8cc, 0xad6c, 0xd604, 0xd68c, 0xad50, 0xc120, 0xad50,
	0xd0c1, 0xb450, 0xb834, 0xd3d0, 0xd0dc, 0xd6a8, 0xd6a8, 0xbb38, 0xd559, 0xc81c, 0xc81c, 0xc7ac, 0xbe48, 0xac01, 0xc7ac, 0xb7c9,
	0xbe44, 0xbc18, 0xbc18, 0xb780, 0xc720, 0xb780, 0xbbf8, 0xb450, 0xc2b9, 0xb8cc, 0xac00, 0xace1, 0xc0ac, 0xac00, 0xc720, 0xc9d0,
	0xac01, 0xc54c, 0xc8fc, 0xcd95, 0xadfc, 0xcc99, 0xc740, 0xbd80, 0xc7a5, 0xcc38, 0xad6c, 0xc791, 0xcc38, 0xb2e8, 0xcc29, 0xc0ac,
	0xc2e0, 0xc791, 0xcc29, 0xadfc, 0xb9b0, 0xcc29, 0xcd09, 0xb2e8, 0xcd09, 0xbc29, 0xac1c, 0xd56d, 0xc5b4, 0xc2dc, 0xd328, 0xc720,
	0xba70, 0xbc29, 0xae30, 0xc804, 0xbaa8, 0xb824, 0xd328, 0xd53c, 0xb958, 0xbd80, 0xbc29, 0xc120, 0xc815, 0xc815, 0xb2c8, 0xc871,
	0xc870, 0xc758, 0xb958, 0xc18c, 0xac74, 0xc5c7, 0xc758, 0xae30, 0xce58, 0xbc88, 0xd45c, 0xbc88, 0xc804, 0xad34, 0xc218, 0xc5ec,
	0xbb34, 0xae30, 0xae30, 0xae30, 0xd654, 0xc77c, 0xb2e8, 0xad6c, 0xc9c0, 0xc870, 0xd611, 0xb3c4, 0xc21c, 0xc6b1, 0xc6b1, 0xb77c,
	0xac04, 0xd55c, 0xb300, 0xc801, 0xc6b0, 0xcc38, 0xc2dc, 0xad11, 0xc591, 0xc2dc, 0xc655, 0xbbfc, 0xbbfc, 0xb3c8, 0xcd98, 0xc624,
	0xc724, 0xd328, 0xc559, 0xce21, 0xd310, 0xac81, 0xace4, 0xc2b9, 0xd638, 0xbc29, 0xd638, 0xacc4, 0xcc3d, 0xd6e4, 0xba85, 0xd63c,
	0xbd84, 0xae08, 0xbb3c, 0xc5ed, 0xc11d, 0xd754, 0xc5f0, 0xce21, 0xbc29, 0xc695, 0xc2e0, 0xac70, 0xc591, 0xc7a0, 0xbcd1, 0xc131,
	0xc601, 0xd604, 0xbd88, 0xc9c4, 0xb839, 0xcd98, 0xd638, 0xb9e4, 0xc791, 0xb9d0, 0xbcc0, 0xad6c, 0xd63c, 0xc18c, 0xc885, 0xc2dc,
	0xd558, 0xc6b1, 0xbe44, 0xc9c8, 0xbb18, 0xb2d0, 0xcc3d, 0xc628, 0xb3d9, 0xc560, 0xbcd1, 0xc559, 0xc8fc, 0xb871, 0xd604, 0xad11,
	0xc870, 0xc870, 0xc2dc, 0xd669, 0xd669, 0xd6e4, 0xad34, 0xacfc, 0xad50, 0xc9c4, 0xc9c8, 0xc9c4, 0xc0c1, 0xb3d9, 0xd64d, 0xc548,
	0xd574, 0xd5a5, 0xc1c4, 0xd6a8, 0xc5fd, 0xd6c8, 0xd718, 0xd568, 0xd55c, 0xc900, 0xb9cc, 0xd604, 0xace4, 0xc8fc, 0xd76c, 0xc131,
	0xc131, 0xd3ec, 0xc808, 0xc808, 0xc624, 0xd658, 0xd68c, 0xd638, 0xc2e0, 0xb9cc, 0xc804, 0xd0c1, 0xc218, 0xc8fc, 0xbcf4, 0xacbd,
	0xc11d, 0xc12c, 0xc608, 0xc11d, 0xccad, 0xacc4, 0xc815, 0xadc0, 0xc815, 0xc5ed, 0xc9c0, 0xc554, 0xc6d0, 0xb9bc, 0xb7c9, 0xcc3d,
	0xc655, 0xd6a8, 0xc7a0, 0xbe44, 0xd6e4, 0xd658, 0xc774, 0xac00, 0xd6c8, 0xd718, 0xbd80, 0xbbfc, 0xaddc, 0xac08, 0xc601, 0xb3c4,
	0xc704, 0xc11c, 0xccad, 0xbb34, 0xb0a8, 0xac04, 0xb09c, 0xc554, 0xc591, 0xcd98, 0xc694, 0xcc28, 0xbcf4, 0xba85, 0xad50, 0xac1c,
	0xace0, 0xc639, 0xcc3d, 0xae30, 0xd638, 0xc548, 0xb825, 0xc560, 0xae30, 0xacc4, 0xbb38, 0xc7a0, 0xc124, 0xd638, 0xbaa8, 0xb9c9,
	0xc885, 0xb2d0, 0xc7a5, 0xd61c, 0xd3ed, 0xd55c, 0xc120, 0xc804, 0xb8cc, 0xc12c, 0xd0c4, 0xacbd, 0xbcc4, 0xb9b0, 0xb3c8, 0xd76c,
	0xc5d0, 0xae30, 0xd669, 0xd0dc, 0xc5fd, 0xc5fd, 0xb825, 0xb2f4, 0xb3d9, 0xd6a8, 0xbe44, 0xb2f4, 0xc870, 0xd638, 0xc5ed, 0xd5a5,
	0xc131, 0xc0bc, 0xad50, 0xd3ec, 0xacbd, 0xc5fc, 0xc560, 0xc5fd, 0xc720, 0xc11c, 0xbabd, 0xd6c8, 0xc694, 0xd3ed, 0xb824, 0xc2e0,
	0xad11, 0xcca9, 0xb8cc, 0xc5f0, 0xd655, 0xb824, 0xd76c, 0xc735, 0xb871, 0xb0ad, 0xb77c, 0xb780, 0xc1c4, 0xb2f9, 0xc5c4, 0xcd09,
	0xc648, 0xc555, 0xace1, 0xc608, 0xacbd, 0xc608, 0xd640, 0xac08, 0xc11c, 0xc870, 0xc870, 0xcc9c, 0xb9cc, 0xc99d, 0xc99d, 0xccb4,
	0xcd5c, 0xcc38, 0xc6b1, 0xd68c, 0xc778, 0xac78, 0xbd84, 0xbe44, 0xc6d4, 0xc720, 0xc6d0, 0xbd95, 0xbc18, 0xbcf5, 0xb839, 0xad74,
	0xad6c, 0xc138, 0xb275, 0xc870, 0xc0ad, 0xc9d0, 0xb791, 0xb791, 0xc804, 0xba85, 0xd669, 0xb9dd, 0xb3c8, 0xc870, 0xae30, 0xae30,
	0xc601, 0xc885, 0xb9dd, 0xb3d9, 0xb791, 0xb85c, 0xbabd, 0xb871, 0xbaa9, 0xbe48, 0xbbf8, 0xb9d0, 0xbcf8, 0xcc30, 0xcd9c, 0xcd9c,
	0xbab0, 0xc8fc, 0xc778, 0xd314, 0xbc15, 0xd0c0, 0xd0c0, 0xb3c4, 0xb825, 0xad6c, 0xada4, 0xaddc, 0xbe44, 0xd6c4, 0xc815, 0xc790,
	0xc0b4, 0xc785, 0xc7a1, 0xad8c, 0xcc9c, 0xc6b0, 0xac04, 0xc624, 0xcc28, 0xc0bc, 0xc21c, 0xbc94, 0xc62c, 0xc790, 0xb9ac, 0xd589,
	0xc7ac, 0xcd0c, 0xc778, 0xd45c, 0xd0c1, 0xccb4, 0xc7a5, 0xb9dd, 0xce58, 0xc775, 0xace8, 0xad81, 0xb450, 0xc774, 0xae30, 0xc18d,
	0xac15, 0xc870, 0xbaa9, 0xc0b0, 0xd68c, 0xb798, 0xad6c, 0xb9dd, 0xc591, 0xb9c8, 0xcd08, 0xc9c0, 0xc6d0, 0xd56d, 0xd3d0, 0xbc30,
	0xac78, 0xb3d9, 0xace0, 0xbb18, 0xd5d8, 0xc800, 0xcd98, 0xd30c, 0xc218, 0xd654, 0xc2ec, 0xb274, 0xc800, 0xcd98, 0xc1a1, 0xd310,
	0xc1a1, 0xac81, 0xc6d4, 0xc9c4, 0xad6c, 0xacc4, 0xbaa8, 0xbe44, 0xbe44, 0xc655, 0xc559, 0xbc29, 0xbd84, 0xc608, 0xbd80, 0xb0a8,
	0xc11d, 0xd638, 0xc57c, 0xb450, 0xc2ec, 0xce68, 0xc694, 0xb9bc, 0xc608, 0xc640, 0xb9e4, 0xc870, 0xacfc, 0xc9c0, 0xc885, 0xc6b4,
	0xd654, 0xc2b9, 0xcd94, 0xc870, 0xacac, 0xb825, 0xd638, 0xacac, 0xc815, 0xc1a1, 0xcc3d, 0xd48d, 0xb2e8, 0xd6a8, 0xce68, 0xace0,
	0xd3c9, 0xc774, 0xc2dc, 0xc9c0, 0xad18, 0xd6a8, 0xac00, 0xac00, 0xad6c, 0xd3ec, 0xb9d0, 0xc124, 0xc5fd, 0xc5fd, 0xc2dc, 0xc5bc,
	0xd53c, 0xd0c0, 0xc774, 0xb839, 0xbcd1, 0xb2c8, 0xb78d, 0xd654, 0xbc18, 0xbc94, 0xc885, 0xb300, 0xc0ac, 0xc601, 0xbd80, 0xbc31,
	0xbaa8, 0xac10, 0xce60, 0xc5fc, 0xc720, 0xbb34, 0xc18c, 0xc1a1, 0xc790, 0xd569, 0xc720, 0xc2e0, 0xac70, 0xd0c1, 0xc791, 0xb0a8,
	0xc800, 0xc601, 0xc800, 0xc9c8, 0xc0ac, 0xc0ac, 0xb2e8, 0xace0, 0xd3ec, 0xad6c, 0xc694, 0xbd88, 0xac04, 0xbc1c, 0xb3cc, 0xac00,
	0xb0b4, 0xc8fc, 0xbe44, 0xb958, 0xc2dc, 0xcc45, 0xc0ac, 0xcd95, 0xbc30, 0xc2dc, 0xad18, 0xc0ac, 0xc694, 0xc815, 0xc815, 0xc2dc,
	0xce58, 0xb958, 0xbaa8, 0xd68c, 0xc601, 0xcc45, 0xc870, 0xd45c, 0xc794, 0xc990, 0xb871, 0xb3d9, 0xb85c, 0xc0dd, 0xb825, 0xb780,
	0xc601, 0xc218, 0xc21c, 0xc804, 0xacc4, 0xc815, 0xc11c, 0xb960, 0xccb4, 0xd56d, 0xc9d0, 0xb824, 0xc0c9, 0xad04, 0xac04, 0xbcd1,
	0xc784, 0xad50, 0xbc31, 0xc784, 0xd48d, 0xc790, 0xc218, 0xc608, 0xcc28, 0xd5c8, 0xc8fc, 0xcc9c, 0xc81c, 0xc774, 0xc774, 0xc6b1,
	0xbc8c, 0xacf5, 0xace0, 0xb85c, 0xc804, 0xb82c, 0xd575, 0xc591, 0xd575, 0xadfc, 0xc9c0, 0xc2dd, 0xaca9, 0xc7ac, 0xb780, 0xbcf5,
	0xac78, 0xd56d, 0xacc4, 0xb3c4, 0xad11, 0xc678, 0xad11, 0xc5ec, 0xc548, 0xc548, 0xad8c, 0xc774, 0xd0c1, 0xace0, 0xc9c8, 0xacf5,
	0xb3d9, 0xc0c1, 0xc0c1, 0xd658, 0xae38, 0xad6c, 0xd608, 0xd0c0, 0xd1f4, 0xc6b0, 0xcc30, 0xc0c1, 0xc575, 0xc2b9, 0xc11d, 0xc794,
	0xc544, 0xc694, 0xc815, 0xb2f9, 0xae30, 0xad50, 0xd654, 0xd68c, 0xc7a5, 0xc7a5, 0xc2ec, 0xc0ac, 0xc0ac, 0xc9c4, 0xbc30, 0xc815,
	0xad04, 0xacbd, 0xbc1c, 0xbd84, 0xbd80, 0xc720, 0xd1b5, 0xac01, 0xd76c, 0xb791, 0xb958, 0xbd09, 0xce60, 0xc628, 0xad70, 0xac04,
	0xc18d, 0xb7c9, 0xad6c, 0xc815, 0xc720, 0xb9e4, 0xbc29, 0xb871, 0xd33d, 0xc7a5, 0xc81c, 0xd604, 0xb3c4, 0xc870, 0xc694, 0xace1,
	0xd3d0, 0xc801, 0xd568, 0xc7ac, 0xce58, 0xc778, 0xd328, 0xacbd, 0xacac, 0xd658, 0xb9cc, 0xb098, 0xd611, 0xc870, 0xae30, 0xd6a8,
	0xb824, 0xc644, 0xcd08, 0xc2ec, 0xbd84, 0xc1a1, 0xbabd, 0xc624, 0xb9ac, 0xb9ac, 0xb450, 0xce68, 0xc601, 0xc0ac, 0xad6d, 0xc81c,
	0xacc4, 0xace4, 0xd0c8, 0xc18c, 0xcc9c, 0xbc94, 0xbbf8, 0xc815, 0xb9ac, 0xbe48, 0xb85d, 0xbd88, 0xb3c4, 0xc9c0, 0xb798, 0xb828,
	0xac80, 0xc808, 0xb839, 0xb9ac, 0xae30, 0xbcd1, 0xb95c, 0xcd1d, 0xcc9c, 0xba74, 0xae30, 0xae30, 0xcc44, 0xace4, 0xc12c, 0xb4dd,
	0xbe44, 0xd328, 0xbd09, 0xbd80, 0xd63c, 0xc885, 0xc815, 0xc870, 0xadf9, 0xb824, 0xbd95, 0xc721, 0xc5b4, 0xace0, 0xace4, 0xb3d9,
	0xb2f9, 0xac15, 0xb9dd, 0xccb4, 0xc11d, 0xbc88, 0xc7c1, 0xc794, 0xacc4, 0xc5f0, 0xc5fc, 0xc5ed, 0xad8c, 0xc5ed, 0xc0bc, 0xc784,
	0xcd94, 0xb989, 0xc11c, 0xc808, 0xbcf5, 0xacfc, 0xb798, 0xcd94, 0xcd94, 0xb3c4, 0xad00, 0xbd84, 0xbd84, 0xb9bc, 0xacbd, 0xc608,
	0xc644, 0xacfd, 0xb85d, 0xd638, 0xc811, 0xc758, 0xc8fc, 0xad6c, 0xad6d, 0xc2b9, 0xc878, 0xb7c9, 0xac15, 0xc2dd, 0xcd94, 0xc544,
	0xac70, 0xbe44, 0xcd08, 0xd0c1, 0xce58, 0xbe48, 0xbd95, 0xc815, 0xcd08, 0xcc3d, 0xb975, 0xd654, 0xac80, 0xaddc, 0xc2ed, 0xb3c5,
	0xcc38, 0xb3c4, 0xadc0, 0xc804, 0xb77c, 0xc9c0, 0xad8c, 0xba85, 0xbd80, 0xacbd, 0xbcd1, 0xc804, 0xc758, 0xd0c0, 0xc0bc, 0xd0c0,
	0xc57c, 0xbcf5, 0xd718, 0xc678, 0xb2e8, 0xac00, 0xc885, 0xac10, 0xc774, 0xce68, 0xbcf4, 0xc5b8, 0xc5f0, 0xc5f0, 0xc804, 0xcd98,
	0xc6b0, 0xaca9, 0xc0ac, 0xc545, 0xd3b8, 0xbcf5, 0xc694, 0xd654, 0xc11c, 0xc57d, 0xc591, 0xb784, 0xc548, 0xbcf8, 0xd718, 0xaddc,
	0xacc4, 0xaddc, 0xc0ac, 0xd48d, 0xc124, 0xd0c0, 0xc990, 0xac74, 0xbaa9, 0xbb34, 0xcd08, 0xace0, 0xd638, 0xb828, 0xb989, 0xc815,
	0xb0a8, 0xc720, 0xc720, 0xbbf8, 0xc1a1, 0xc6d0, 0xd6e4, 0xc601, 0xc815, 0xd3b8, 0xc811, 0xc999, 0xac08, 0xc5c5, 0xc800, 0xc21c,
	0xc720, 0xc8fc, 0xc704, 0xb9e4, 0xccb4, 0xadf9, 0xc808, 0xd574, 0xcd94, 0xc601, 0xc720, 0xd669, 0xb8e8, 0xc545, 0xcc9c, 0xd5a5,
	0xd488, 0xc2e4, 0xac1c, 0xd5d8, 0xb78c, 0xc628, 0xc720, 0xce5c, 0xb824, 0xac70, 0xc2e0, 0xcd94, 0xbe44, 0xc124, 0xac00, 0xc775,
	0xc804, 0xbd80, 0xb158, 0xd544, 0xb791, 0xc6a9, 0xace1, 0xc9c4, 0xad6c, 0xb2f5, 0xc694, 0xc9c4, 0xbc29, 0xc0b4, 0xc6d0, 0xc7ac,
	0xba85, 0xc18c, 0xac00, 0xc694, 0xac78, 0xd669, 0xac04, 0xbe44, 0xc790, 0xac74, 0xb9c8, 0xc21c, 0xc6d0, 0xc0ac, 0xc601, 0xc2dc,
	0xc9c0, 0xcd5c, 0xc628, 0xc815, 0xb958, 0xc6a9, 0xb2f9, 0xad50, 0xcc44, 0xc0ac, 0xc2b9, 0xd0d1, 0xd569, 0xd61c, 0xace8, 0xae30,
	0xace0, 0xace0, 0xc190, 0xbc18, 0xb3c4, 0xb3c4, 0xc21c, 0xc804, 0xb204, 0xc9c8, 0xc0ad, 0xad6c, 0xd1f4, 0xcc3d, 0xcc28, 0xacb8,
	0xad34, 0xb9e4, 0xd735, 0xacf5, 0xace0, 0xd0c1, 0xd0c1, 0xad50, 0xc591, 0xc804, 0xac00, 0xd568, 0xcde8, 0xb3c4, 0xb871, 0xbe48,
	0xc800, 0xc0c1, 0xc2b5, 0xae30, 0xb828, 0xd61c, 0xc6a9, 0xcc38, 0xacfd, 0xac1c, 0xac1c, 0xb2e8, 0xd654, 0xc0c9, 0xc0bc, 0xcd5c,
	0xbd09, 0xc720, 0xace1, 0xc7a5, 0xd638, 0xd658, 0xadc0, 0xc5bc, 0xc608, 0xace0, 0xac15, 0xaddc, 0xaddc, 0xc870, 0xb9cc, 0xadfc,
	0xc801, 0xc7a5, 0xb77d, 0xb791, 0xc9c4, 0xc885, 0xb9ac, 0xc218, 0xacbd, 0xc0c1, 0xbc88, 0xd1b5, 0xad00, 0xc801, 0xcd9c, 0xb958,
	0xb85c, 0xb7c9, 0xbc00, 0xb8e8, 0xc18c, 0xc18d, 0xac00, 0xc800, 0xd0f1, 0xd45c, 0xb85d, 0xaddc, 0xc790, 0xc0ac, 0xcd94, 0xc7a5,
	0xb9cc, 0xbaa8, 0xc870, 0xc591, 0xc870, 0xbd09, 0xc8fc, 0xc0b4, 0xc11c, 0xad8c, 0xd6a1, 0xacac, 0xcd1d, 0xae30, 0xc5f0, 0xc7a5,
	0xc124, 0xc575, 0xc774, 0xc2ec, 0xc9c1, 0xcd08, 0xcd5c, 0xcd1d, 0xbc15, 0xc218, 0xd654, 0xada4, 0xc9c4, 0xc900, 0xc6d4, 0xc804,
	0xd61c, 0xcd98, 0xc874, 0xbc8c, 0xac10, 0xbaa8, 0xbb34, 0xcde8, 0xc694, 0xb9b0, 0xb958, 0xad50, 0xd55c, 0xc724, 0xbc88, 0xc804,
	0xd0c1, 0xb8cc, 0xc6b4, 0xc21c, 0xb3c8, 0xd0f1, 0xd0f1, 0xb9f9, 0xade4, 0xb4f1, 0xc219, 0xad90, 0xad90, 0xb2f4, 0xd61c, 0xae30,
	0xb098, 0xc0c1, 0xd0c0, 0xb155, 0xc608, 0xc800, 0xb3d9, 0xc99d, 0xbd84, 0xacbd, 0xc5f0, 0xd6a1, 0xc2ec, 0xace0, 0xb958, 0xb85c,
	0xace0, 0xc8fc, 0xd76c, 0xc2b9, 0xc790, 0xc0b0, 0xadf9, 0xb450, 0xc815, 0xb85c, 0xd55c, 0xcd94, 0xc5f0, 0xb2ec, 0xc218, 0xac15,
	0xb2e8, 0xb984, 0xb18d, 0xc740, 0xaca9, 0xc138, 0xc0bc, 0xcde8, 0xc120, 0xc815, 0xac04, 0xad6d, 0xc8c4, 0xc5b5, 0xae08, 0xbc15,
	0xcca8, 0xb8b0, 0xd48d, 0xd6fc, 0xb2f9, 0xacc4, 0xc218, 0xbcbd, 0xbcbd, 0xc815, 0xcd08, 0xacfc, 0xd68c, 0xc999, 0xd574, 0xac00,
	0xacbd, 0xc11d, 0xac80, 0xc7a5, 0xb3c4, 0xc758, 0xd45c, 0xc1a1, 0xc591, 0xb984, 0xb825, 0xcc30, 0xbabd, 0xc740, 0xb3c4, 0xb300,
	0xba74, 0xae30, 0xb2e8, 0xbe48, 0xd655, 0xacc4, 0xc5fc, 0xb2c8, 0xb155, 0xc758, 0xace0, 0xd568, 0xc740, 0xb204, 0xacbd, 0xc5fc,
	0xae30, 0xbc00, 0xb3c4, 0xada4, 0xcd98, 0xc81c, 0xad34, 0xd30c, 0xb4f1, 0xc8fc, 0xac01, 0xba74, 0xc6b0, 0xc9c8, 0xd669, 0xcc9c,
	0xb8e8, 0xb8b0, 0xcc30, 0xb85c, 0xb840, 0xcc2c, 0xb824, 0xba78, 0xd61c, 0xc6b0, 0xb824, 0xc990, 0xace0, 0xb3c5, 0xc5f0, 0xb825,
	0xd3d0, 0xc800, 0xc218, 0xb828, 0xc804, 0xc8fc, 0xacbd, 0xc800, 0xb85c, 0xc5fc, 0xb825, 0xc800, 0xce5c, 0xac78, 0xc545, 0xc18c,
	0xd68c, 0xc5bc, 0xc5ec, 0xb871, 0xb8b0, 0xcd08, 0xd5cc, 0xadc0, 0xac70, 0xc18c, 0xb839, 0xc575, 0xcca8, 0xc740, 0xc720, 0xc601,
	0xc591, 0xb18d, 0xbc15, 0xcc38, 0xb780, 0xac70, 0xc30d, 0xc12d, 0xcde8, 0xcd1d, 0xad8c, 0xad6c, 0xc7a5, 0xad6c, 0xc6b8, 0xb77c,
	0xb824, 0xcc2c, 0xb780, 0xb2f9, 0xacfd, 0xc5c4, 0xb78c, 0xb780, 0xcd09, 0xb958, 0xb840, 0xd30c, 0xb0ad, 0xc6b8, 0xb839, 0xad00,
	0xd760, 0xcc28, 0xd658, 0xd754, 0xc5ec, 0xc728, 0xd568, 0xad6c, 0xad6c, 0xcd08, 0xcd9c, 0xaca9, 0xd574, 0xc778, 0xad90, 0xd790,
	0xc220, 0xd569, 0xc695, 0xad34, 0xb791, 0xad00, 0xc218, 0xd76c, 0xc560, 0xc758, 0xae30, 0xd6cc, 0xcd5c, 0xd760, 0xad00, 0xac10,
	0xad00, 0xac10, 0xcc9c, 0xc0bd, 0xacfc, 0xc778, 0xd760, 0xd5d0, 0xc720, 0xacb8, 0xd6a8, 0xc774, 0xac00, 0xc624, 0xd0c4, 0xadfc,
	0xad6c, 0xd638, 0xc801, 0xd658, 0xd5c8, 0xbd84, 0xd76c, 0xc18c, 0xd6cc, 0xd761, 0xc120, 0xac10, 0xcd09, 0xc5ed, 0xc74d, 0xc5ec,
	0xcca0, 0xd658, 0xc9c0, 0xc815, 0xcc28, 0xbcf4, 0xbb34, 0xae30, 0xbcf4, 0xbcf4, 0xc65c, 0xac70, 0xc804, 0xce58, 0xc0c9, 0xce58,
	0xc0bd, 0xc885, 0xc138, 0xc138, 0xb825, 0xc0c9, 0xc6b0, 0xb825, 0xadc0, 0xc54c, 0xc54c, 0xc0ac, 0xc12c, 0xbab0, 0xbab0, 0xbab0,
	0xc694, 0xbab0, 0xc870, 0xc559, 0xc9c4, 0xc0dd, 0xd0dc, 0xc0c1, 0xd601, 0xc21c, 0xc218, 0xc794, 0xacbd, 0xd45c, 0xacb9, 0xad6c,
	0xc18d, 0xae0d, 0xc6b4, 0xc5fc, 0xc774, 0xbd80, 0xc2dd, 0xc5c5, 0xc794, 0xd63c, 0xd0c4, 0xadf9, 0xc5fd, 0xc9c4, 0xc6b4, 0xc628,
	0xcd94, 0xbe48, 0xccb4, 0xadfc, 0xc0c1, 0xc778, 0xc870, 0xcd95, 0xada4, 0xcc2c, 0xc5d0, 0xd0c4, 0xb450, 0xac15, 0xb834, 0xbe48,
	0xb3c5, 0xc12c, 0xc12c, 0xc218, 0xad6c, 0xb2e8, 0xc8fc, 0xc740, 0xc131, 0xc608, 0xc0b4, 0xac01, 0xac01, 0xd6a8, 0xc900, 0xc804,
	0xd6fc, 0xd6fc, 0xace1, 0xac01, 0xaca9, 0xc758, 0xad6c, 0xd6fc, 0xb2e8, 0xc758, 0xd6a8, 0xbb34, 0xad00, 0xbaa8, 0xb9e4, 0xb9e4,
	0xc560, 0xc790, 0xb3c5, 0xc721, 0xbe44, 0xd544, 0xbe44, 0xbe44, 0xbe44, 0xd3d0, 0xcc38, 0xbaa8, 0xc18c, 0xc0bc, 0xbe44, 0xbaa8,
	0xac00, 0xc804, 0xc2dc, 0xbaa9, 0xd0c0, 0xc21c, 0xc774, 0xc735, 0xc120, 0xad6d, 0xbaa8, 0xd638, 0xad6c, 0xb450, 0xbaa8, 0xb2f4,
	0xbc30, 0xad6d, 0xd0c8, 0xcde8, 0xbe44, 0xc0b0, 0xcc38, 0xbaa8, 0xc2dc, 0xc720, 0xc720, 0xd0c0, 0xac08, 0xac74, 0xd0d1, 0xc0b0,
	0xb8e8, 0xbaa8, 0xb9ac, 0xb3d9, 0xc6a9, 0xcc3d, 0xbc29, 0xb85c, 0xc804, 0xc18c, 0xc804, 0xbabd, 0xb85c, 0xad6c, 0xcca9, 0xc528,
	0xc800, 0xbbfc, 0xad90, 0xb9f9, 0xae30, 0xd53c, 0xb0b4, 0xae30, 0xb3c4, 0xc120, 0xcc9c, 0xbd84, 0xc591, 0xb0b4, 0xbcd1, 0xbd88,
	0xc2e0, 0xb3d9, 0xacbd, 0xae30, 0xc778, 0xc11c, 0xd574, 0xc591, 0xc548, 0xc544, 0xadf9, 0xacbd, 0xc544, 0xb3d9, 0xb2f4, 0xb85d,
	0xccad, 0xc591, 0xc628, 0xc628, 0xc218, 0xc218, 0xc2b9, 0xbe59, 0xc601, 0xb2f9, 0xc218, 0xb975, 0xb2c9, 0xd0c4, 0xbc94, 0xada4,
	0xc815, 0xc999, 0xad6c, 0xd314, 0xce21, 0xba74, 0xd0c4, 0xd718, 0xc870, 0xd55c, 0xcc28, 0xc791, 0xcc9c, 0xd658, 0xbc94, 0xb300,
	0xc11d, 0xd0c1, 0xb9dd, 0xc218, 0xd758, 0xc0b0, 0xd30c, 0xd55c, 0xcc9c, 0xc624, 0xc624, 0xc2e0, 0xc0ac, 0xc5ec, 0xd64d, 0xac15,
	0xc9c0, 0xc624, 0xd1a0, 0xad6c, 0xd0d5, 0xc9c0, 0xc9c0, 0xacac, 0xace8, 0xace8, 0xc655, 0xc815, 0xc815, 0xc608, 0xade0, 0xad49,
	0xd0dc, 0xacac, 0xae09, 0xbcc0, 0xd310, 0xac10, 0xbb38, 0xc885, 0xbc29, 0xd749, 0xacb0, 0xc624, 0xc6b0, 0xae30, 0xbd84, 0xc11c,
	0xc11c, 0xc2ec, 0xae30, 0xc625, 0xc6b4, 0xc6d0, 0xd56d, 0xc5f0, 0xce68, 0xce68, 0xd0d0, 0xc6b0, 0xb3c8, 0xd638, 0xd654, 0xc808,
	0xbaa9, 0xb274, 0xbab0, 0xb2f5, 0xba74, 0xbb3c, 0xcda9, 0xcca8, 0xbe44, 0xc0ac, 0xc9c0, 0xd328, 0xbc18, 0xcd94, 0xc7a1, 0xad6c,
	0xc870, 0xbab0, 0xd0dd, 0xd48d, 0xad6c, 0xb825, 0xb95c, 0xcc3d, 0xd48d, 0xaddc, 0xd638, 0xb9d0, 0xb9e4, 0xc220, 0xc800, 0xc11d,
	0xd0c1, 0xd0c0, 0xd0c0, 0xd558, 0xb824, 0xb824, 0xc2dc, 0xbc1c, 0xbe44, 0xc720, 0xc804, 0xce58, 0xc18c, 0xace0, 0xcca8, 0xc5f0,
	0xc0ac, 0xd669, 0xd615, 0xad6c, 0xc124, 0xc218, 0xc77c, 0xac00, 0xc885, 0xcc9c, 0xbc15, 0xd718, 0xbe44, 0xbd84, 0xc0c9, 0xcd9c,
	0xb975, 0xc720, 0xace0, 0xd64d, 0xac10, 0xbc95, 0xbb18, 0xc0ac, 0xd638, 0xd3c9, 0xc790, 0xbc94, 0xc9c0, 0xc18c, 0xc800, 0xc815,
	0xb839, 0xd3ec, 0xd30c, 0xc74d, 0xc0ac, 0xb2c8, 0xad6d, 0xc6d4, 0xc8fc, 0xc0dd, 0xb8e8, 0xd604, 0xd608, 0xbd80, 0xbc18, 0xbbfc,
	0xd0dc, 0xc559, 0xc81c, 0xc601, 0xad00, 0xbe59, 0xd615, 0xb871, 0xb85c, 0xb2e8, 0xb77d, 0xc0ac, 0xbc1c, 0xd0dd, 0xacbd, 0xc740,
	0xc8fc, 0xae38, 0xc57d, 0xd68c, 0xd68c, 0xc7ac, 0xc2b9, 0xc778, 0xc704, 0xd6c4, 0xcc9c, 0xc591, 0xb82c, 0xc0ac, 0xacc4, 0xc774,
	0xd589, 0xbcf4, 0xc138, 0xc0c9, 0xc9c0, 0xc778, 0xc624, 0xc138, 0xace0, 0xc218, 0xd64d, 0xb77d, 0xb7b5, 0xc548, 0xb3d9, 0xc774,
	0xbaa8, 0xb8b0, 0xc774, 0xbbf8, 0xcc9c, 0xc9c4, 0xbc31, 0xc720, 0xd6a8, 0xc124, 0xd64d, 0xd601, 0xc18d, 0xad11, 0xb3c4, 0xacb0,
	0xac70, 0xc774, 0xc8fc, 0xc5ec, 0xbcd1, 0xc21c, 0xd749, 0xc9c8, 0xad11, 0xc6d0, 0xba85, 0xd65c, 0xc640, 0xd761, 0xd30c, 0xc624,
	0xace1, 0xb958, 0xc77c, 0xd611, 0xc815, 0xcc9c, 0xc7a5, 0xc694, 0xc815, 0xc0ac, 0xd0c1, 0xce21, 0xbc8c, 0xd68c, 0xc81c, 0xb958,
	0xc0b0, 0xd63c, 0xd5c8, 0xb18d, 0xc2ec, 0xc9c4, 0xb82c, 0xad6c, 0xbbf8, 0xc808, 0xc900, 0xd568, 0xbe48, 0xbc29, 0xcc29, 0xc720,
	0xd76c, 0xbc1c, 0xb450, 0xc644, 0xad49, 0xc74d, 0xd3ec, 0xc601, 0xb78c, 0xd638, 0xb791, 0xd55c, 0xb9ac, 0xacbd, 0xbd80, 0xc624,
	0xb9ac, 0xc21c, 0xbd09, 0xc775, 0xc695, 0xb3d9, 0xb85c, 0xd574, 0xce68, 0xd611, 0xcda9, 0xd615, 0xb9e4, 0xc218, 0xc801, 0xd328,
	0xacac, 0xc0bc, 0xb3c4, 0xace4, 0xbe59, 0xc5f4, 0xac04, 0xacbd, 0xc18c, 0xc12d, 0xb144, 0xb3c5, 0xc6a9, 0xd6a8, 0xc5f0, 0xc815,
	0xc544, 0xc18d, 0xad70, 0xc5f0, 0xc7a0, 0xccb4, 0xb9ac, 0xc138, 0xc0ac, 0xb8e8, 0xc138, 0xb3c4, 0xb3c5, 0xb85c, 0xb798, 0xb828,
	0xc704, 0xc640, 0xc6b4, 0xd658, 0xcc99, 0xd615, 0xc724, 0xac04, 0xcc3d, 0xc0bd, 0xbd80, 0xad00, 0xd589, 0xc218, 0xc1c4, 0xc560,
	0xcca0, 0xc561, 0xc561, 0xacf5, 0xc644, 0xd568, 0xd0c0, 0xb3d9, 0xd6c4, 0xc640, 0xac70, 0xc0ac, 0xb7c9, 0xd63c, 0xb2f5, 0xd0c1,
	0xc815, 0xcca9, 0xb4dd, 0xad8c, 0xce58, 0xc11d, 0xd6a8, 0xae30, 0xad74, 0xacfc, 0xd568, 0xb9bc, 0xcc3d, 0xc8fc, 0xbd09, 0xd638,
	0xcc3d, 0xc219, 0xcc98, 0xbc29, 0xce59, 0xb959, 0xb1e8, 0xad6d, 0xb3c4, 0xc885, 0xb8e8, 0xc81c, 0xbe59, 0xbe44, 0xc1a1, 0xc804,
	0xbe44, 0xb2f4, 0xc5ed, 0xc608, 0xc5b4, 0xb85d, 0xac10, 0xbc00, 0xc815, 0xb989, 0xb95c, 0xc74c, 0xc26c, 0xac70, 0xd68c, 0xc721,
	0xc2ec, 0xc2ec, 0xd45c, 0xc21c, 0xc62c, 0xc5f0, 0xb798, 0xd63c, 0xccad, 0xc5c4, 0xcc9c, 0xcca8, 0xbb18, 0xc9c0, 0xc74c, 0xba71,
	0xbd84, 0xc5f0, 0xbb38, 0xc57d, 0xbe44, 0xccad, 0xc5f0, 0xac08, 0xc81c, 0xc12d, 0xc5f0, 0xc0bd, 0xb85d, 0xc9c0, 0xb3c5, 0xae30,
	0xc810, 0xbbfc, 0xbe44, 0xbd80, 0xc5b4, 0xc5f0, 0xc2ec, 0xc0bc, 0xc720, 0xd658, 0xc800, 0xac10, 0xb09c, 0xd22c, 0xcd94, 0xc815,
	0xac70, 0xb3c4, 0xd48d, 0xc0ac, 0xbc1c, 0xc545, 0xc640, 0xc81c, 0xc678, 0xc628, 0xc720, 0xc124, 0xce21, 0xc704, 0xac00, 0xd56d,
	0xc5c4, 0xd64d, 0xc120, 0xbbf8, 0xac08, 0xbb18, 0xc601, 0xc5f0, 0xc720, 0xad49, 0xbb18, 0xc131, 0xbbf8, 0xc7ac, 0xd63c, 0xb0b4,
	0xaddc, 0xb9bd, 0xc545, 0xbc30, 0xbbf8, 0xb828, 0xc74d, 0xc74d, 0xb9e4, 0xcca8, 0xc8fc, 0xc704, 0xcc2c, 0xb2e8, 0xba74, 0xd68c,
	0xbc31, 0xc11c, 0xc999, 0xbd84, 0xc804, 0xac74, 0xd638, 0xbd09, 0xc0c1, 0xc5ed, 0xc778, 0xb2f4, 0xc2dd, 0xac1c, 0xc815, 0xd669,
	0xd0c4, 0xc6b0, 0xbcbd, 0xbbfc, 0xc2dc, 0xb3cc, 0xc0dd, 0xc6a9, 0xaca9, 0xb3d9, 0xb2e8, 0xcd94, 0xcd94, 0xcd94, 0xc778, 0xd0d5,
	0xb96d, 0xd68d, 0xc6d0, 0xb0a8, 0xbc24, 0xc720, 0xcc9c, 0xcd98, 0xb7c9, 0xc804, 0xbcf4, 0xc21c, 0xc5f4, 0xce58, 0xb9cc, 0xc2b5,
	0xb9cc, 0xc601, 0xc790, 0xada4, 0xbd09, 0xcc9c, 0xc11c, 0xb8e8, 0xaddc, 0xac1c, 0xac00, 0xc601, 0xbc1c, 0xc9c4, 0xc5f0, 0xb2f9,
	0xc6d0, 0xc1c4, 0xc6d0, 0xb834, 0xc694, 0xbabd, 0xc900, 0xc2b9, 0xd569, 0xd0dc, 0xb2f5, 0xc640, 0xb958, 0xad6c, 0xc18c, 0xba85,
	0xc790, 0xc2dc, 0xc77c, 0xb860, 0xb9c8, 0xbd80, 0xbbf8, 0xb960, 0xc7ac, 0xc624, 0xacc4, 0xc628, 0xac15, 0xc9c1, 0xc0ac, 0xc18c,
	0xae30, 0xc9c4, 0xc218, 0xc6b4, 0xcd94, 0xc740, 0xc6a9, 0xd63c, 0xc18c, 0xc0ad, 0xb2c9, 0xd0d1, 0xc2b5, 0xc695, 0xc678, 0xbc18,
	0xcd95, 0xc800, 0xbc29, 0xc639, 0xcc3d, 0xba78, 0xaca9, 0xc804, 0xd638, 0xd669, 0xd5d0, 0xc790, 0xcc99, 0xce58, 0xd615, 0xbd80,
	0xac78, 0xd65c, 0xac00, 0xc7ac, 0xb3c4, 0xb4f1, 0xc218, 0xd544, 0xad50, 0xd68c, 0xace4, 0xc81c, 0xace0, 0xb871, 0xccb4, 0xc5fc,
	0xc12d, 0xb9cc, 0xd615, 0xc21c, 0xb824, 0xb78c, 0xb780, 0xd6a8, 0xbe48, 0xd0c4, 0xc5ec, 0xc218, 0xd638, 0xd544, 0xd45c, 0xccb4,
	0xacbd, 0xad6c, 0xc0bc, 0xc0c1, 0xc801, 0xbc00, 0xc624, 0xb85c, 0xd638, 0xd638, 0xc720, 0xc0b0, 0xbc94, 0xc6a9, 0xace4, 0xb9cc,
	0xacbd, 0xc5b4, 0xd45c, 0xc801, 0xc560, 0xc18c, 0xce60, 0xc0ac, 0xc81c, 0xb85d, 0xb8e8, 0xc735, 0xadfc, 0xad35, 0xcd1d, 0xb8e8,
	0xce69, 0xac1c, 0xac15, 0xb9ac, 0xc5f0, 0xc870, 0xad50, 0xcd1d, 0xc21c, 0xb2e8, 0xad6c, 0xb4f1, 0xc57c, 0xc2b5, 0xba71, 0xb2f9,
	0xb9c9, 0xc0c1, 0xd55c, 0xb828, 0xb78c, 0xc640, 0xc2dc, 0xac74, 0xbd09, 0xc120, 0xc758, 0xb9cc, 0xc9c0, 0xb9dd, 0xac15, 0xd0d1,
	0xbd95, 0xc218, 0xcc3d, 0xc7a5, 0xcda9, 0xc11c, 0xd658, 0xacfd, 0xc810, 0xc5b8, 0xc0c1, 0xb958, 0xcd5c, 0xc81c, 0xc591, 0xc7a5,
	0xc885, 0xc601, 0xd64d, 0xc21c, 0xc218, 0xad00, 0xd615, 0xc18c, 0xcd1d, 0xace4, 0xc11c, 0xb834, 0xc9c8, 0xc720, 0xbcc4, 0xc728,
	0xcd08, 0xbc1c, 0xc0c1, 0xd61c, 0xacb0, 0xbb34, 0xd30c, 0xc9d1, 0xbc18, 0xaddc, 0xc219, 0xc7a0, 0xc7a0, 0xd761, 0xb85c, 0xc11d,
	0xc190, 0xb3c8, 0xd669, 0xbbfc, 0xc724, 0xc18d, 0xb8cc, 0xc99d, 0xcd1d, 0xc774, 0xc9c0, 0xb9cc, 0xb2e8, 0xb2f4, 0xc870, 0xc2ec,
	0xada4, 0xc5f4, 0xc18c, 0xb3c4, 0xc800, 0xc0b0, 0xd751, 0xd544, 0xc0b0, 0xc794, 0xc794, 0xc11c, 0xb3d9, 0xbcf4, 0xb9b0, 0xc704,
	0xc0bd, 0xc0bd, 0xc9d5, 0xacbd, 0xc9d5, 0xd670, 0xc694, 0xb85c, 0xcca0, 0xac10, 0xcd0c, 0xd6a1, 0xc2dc, 0xc8fc, 0xd33d, 0xd568,
	0xc6b4, 0xb958, 0xd64d, 0xbcf5, 0xd638, 0xd654, 0xd55c, 0xac04, 0xc0b0, 0xc11d, 0xc624, 0xb85c, 0xb780, 0xb155, 0xc6b0, 0xb984,
	0xbbfc, 0xc870, 0xb2f9, 0xd55c, 0xd0dd, 0xd574, 0xc5ec, 0xb840, 0xc11c, 0xd559, 0xb839, 0xb9cc, 0xc790, 0xc639, 0xd68c, 0xcc2c,
	0xb834, 0xc804, 0xc5c5, 0xc624, 0xd658, 0xce5c, 0xc804, 0xb9cc, 0xb2f4, 0xb2f4, 0xc5b5, 0xc218, 0xbcbd, 0xac70, 0xb2ec, 0xae08,
	0xaca9, 0xd0c1, 0xb834, 0xb18d, 0xacfc, 0xce68, 0xbd84, 0xc0c9, 0xc999, 0xc218, 0xc608, 0xcd08, 0xb2f5, 0xcd1d, 0xc815, 0xc2ac,
	0xc800, 0xb8b0, 0xbe48, 0xb834, 0xb2c8, 0xc2b5, 0xc11c, 0xba71, 0xb155, 0xc601, 0xc601, 0xbabd, 0xc9c4, 0xae30, 0xbe44, 0xc81c,
	0xd638, 0xc720, 0xcde8, 0xc54c, 0xb3c4, 0xc778, 0xc740, 0xb300, 0xc790, 0xd638, 0xc815, 0xb78c, 0xc900, 0xc560, 0xbcf5, 0xd0c1,
	0xc720, 0xbe48, 0xace1, 0xc7a0, 0xc601, 0xbe48, 0xd65c, 0xb9cc, 0xcc3d, 0xbb35, 0xcc9c, 0xc720, 0xb77d, 0xcc2c, 0xb824, 0xb840,
	0xc6b0, 0xc591, 0xb85c, 0xc0ac, 0xc990, 0xd615, 0xb3c5, 0xc655, 0xd718, 0xc0ac, 0xbc18, 0xc2ec, 0xd45c, 0xc804, 0xb9d0, 0xb958,
	0xcca8, 0xd3ed, 0xc0c9, 0xc9d5, 0xace1, 0xbe48, 0xacfd, 0xd5cc, 0xb85c, 0xce5c, 0xd55c, 0xc601, 0xc735, 0xb825, 0xc815, 0xc18c,
	0xd615, 0xc218, 0xc720, 0xd574, 0xd68c, 0xd638, 0xc800, 0xb871, 0xb8b0, 0xb300, 0xbc88, 0xace1, 0xb8b0, 0xc218, 0xb9bc, 0xc601,
	0xbbf8, 0xacc4, 0xb834, 0xcc9c, 0xc601, 0xbd84, 0xb9bc, 0xc775, 0xcca8, 0xc57d, 0xcc38, 0xb300, 0xc591, 0xac74, 0xb780, 0xbc88,
	0xc0c1, 0xc5f0, 0xcc29, 0xd48d, 0xc12d, 0xb958, 0xb78c, 0xcd1d, 0xad6c, 0xc639, 0xcca8, 0xbc95, 0xad00, 0xad90, 0xc5fc, 0xd638,
	0xd615, 0xc1c4, 0xcc2c, 0xb780, 0xc5fc, 0xb77c, 0xbbf8, 0xc120, 0xd0c4, 0xb2f9, 0xad50, 0xcc9c, 0xc601, 0xd638, 0xd30c, 0xcd09,
	0xb78c, 0xb780, 0xb0ad, 0xb9cc, 0xb780, 0xcc9c, 0xd604, 0xc5fc, 0xacf5, 0xc5fc, 0xc6b8, 0xd654, 0xd654, 0xba78, 0xad11, 0xc815,
	0xd68c, 0xd6a8, 0xd6a8, 0xd718, 0xd64d, 0xb839, 0xc870, 0xc120, 0xad6c, 0xd0c0, 0xc0ac, 0xc801, 0xc791, 0xc7ac, 0xc7ac, 0xcc2c,
	0xc591, 0xae30, 0xc885, 0xbd84, 0xb274, 0xacbd, 0xbb38, 0xbc15, 0xc5ed, 0xb85c, 0xcde8, 0xbc30, 0xac1c, 0xbc18, 0xc5fc, 0xac1c,
	0xbc29, 0xbaa9, 0xcd08, 0xb8cc, 0xacb0, 0xd56d, 0xb3c8, 0xad11, 0xd754, 0xc790, 0xad11, 0xad11, 0xc704, 0xcc3d, 0xbcc0, 0xb2ec,
	0xc555, 0xc815, 0xcd9c, 0xac00, 0xc18c, 0xbd88, 0xbc1c, 0xd0c0, 0xd0c0, 0xb839, 0xc878, 0xd604, 0xac70, 0xd0c4, 0xd3ec, 0xd615,
	0xd3ec, 0xd0dc, 0xd0dc, 0xbcd1, 0xc559, 0xb3d9, 0xc12c, 0xc8fc, 0xc791, 0xc810, 0xc704, 0xc11d, 0xb828, 0xce58, 0xd669, 0xc8fc,
	0xd638, 0xc0ad, 0xb780, 0xacbd, 0xad50, 0xd73c, 0xd589, 0xc804, 0xb82c, 0xd658, 0xc591, 0xd734, 0xd734, 0xc120, 0xc74c, 0xc624,
	0xc8fc, 0xc694, 0xc2dd, 0xacc4, 0xb3d9, 0xd608, 0xc7ac, 0xac1c, 0xd64d, 0xb77d, 0xd569, 0xcd09, 0xd6e4, 0xc99d, 0xbc15, 0xc5f0,
	0xad34, 0xad11, 0xd0dd, 0xd68c, 0xace0, 0xc2e0, 0xbc88, 0xc18c, 0xc5fd, 0xd68c, 0xad00, 0xd0d5, 0xc2e0, 0xc5f4, 0xb82c, 0xd76c,
	0xbd80, 0xacbd, 0xcca0, 0xbcf4, 0xacbd, 0xc791, 0xc815, 0xc644, 0xd68c, 0xd33d, 0xb791, 0xc5f0, 0xd6cc, 0xbd09, 0xc801, 0xb96d,
	0xace1, 0xd76c, 0xc219, 0xd601, 0xd6c8, 0xace1, 0xacb0, 0xc18c, 0xd76c, 0xc5b8, 0xd55c, 0xc7a5, 0xc900, 0xc81c, 0xcca0, 0xae30,
	0xc624, 0xace4, 0xb824, 0xd568, 0xc5fc, 0xd658, 0xbbfc, 0xad6d, 0xb3c4, 0xbc30, 0xbd84, 0xb9b0, 0xd63c, 0xd63c, 0xb3c8, 0xc11d,
	0xc26c, 0xbb34, 0xd64d, 0xcd08, 0xbd80, 0xc54c, 0xcd08, 0xcd1d, 0xbd09, 0xbd95, 0xad81, 0xc124, 0xc11d, 0xacbd, 0xd754, 0xc791,
	0xc5fc, 0xd601, 0xc57c, 0xc791, 0xc721, 0xac15, 0xc5f0, 0xbe44, 0xace0, 0xb9dd, 0xc2b9, 0xcc3d, 0xc18c, 0xba85, 0xb150, 0xacbd,
	0xad74, 0xc2ec, 0xd601, 0xaddc, 0xc885, 0xb2e8, 0xd558, 0xd718, 0xd48d, 0xb828, 0xd6e4, 0xc131, 0xd669, 0xcd08, 0xc804, 0xd53d,
	0xc601, 0xc790, 0xc704, 0xb2e8, 0xc810, 0xd76c, 0xb09c, 0xb09c, 0xbd88, 0xc5f0, 0xacbd, 0xacbd, 0xc6b1, 0xbbf8, 0xc0b4, 0xc704,
	0xc7a1, 0xd754, 0xacbd, 0xc720, 0xb9e4, 0xd658, 0xd6c4, 0xc870, 0xc678, 0xbc88, 0xcd94, 0xc218, 0xc591, 0xb82c, 0xc790, 0xac1c,
	0xace0, 0xacfc, 0xbcf4, 0xd638, 0xc628, 0xb0a8, 0xc2dd, 0xb7c9, 0xd3b8, 0xad6c, 0xd1f4, 0xb2f9, 0xcd94, 0xc120, 0xc740, 0xbc15,
	0xc5fd, 0xd611, 0xd76c, 0xbb34, 0xc2dd, 0xc628, 0xd569, 0xd6a8, 0xd76c, 0xc6b4, 0xc6c5, 0xb0b4, 0xc12c, 0xad81, 0xc694, 0xd6c8,
	0xba85, 0xb834, 0xd615, 0xc624, 0xc6a9, 0xacf5, 0xb3c4, 0xcc3d, 0xb958, 0xd76c, 0xd544, 0xd45c, 0xcd1d, 0xb85d, 0xacac, 0xc219,
	0xc2b5, 0xb8e8, 0xbd09, 0xcd5c, 0xc775, 0xd1b5, 0xc791, 0xc885, 0xc704, 0xd638, 0xc774, 0xc790, 0xc624, 0xc704, 0xb8cc, 0xc120,
	0xad6c, 0xc5f4, 0xacbd, 0xb9cc, 0xace4, 0xc801, 0xcc2c, 0xc99d, 0xc7a0, 0xd76c, 0xd76c, 0xd761, 0xc775, 0xc18c, 0xce58, 0xd669,
	0xcc9c, 0xc5fd, 0xcca8, 0xc5f0, 0xc5fc, 0xc12c, 0xad50, 0xc874, 0xb4f1, 0xb3c8, 0xc2e0, 0xcd08, 0xbd84, 0xc0ac, 0xb8cc, 0xc728,
	0xb9b0, 0xb3d9, 0xc18c, 0xbd84, 0xbc88, 0xc5f0, 0xc2ec, 0xb780, 0xbbfc, 0xd0d5, 0xc77c, 0xacbd, 0xbbfc, 0xacbd, 0xcd08, 0xc601,
	0xc6b1, 0xc5ed, 0xd45c, 0xb78c, 0xd0dc, 0xc870, 0xcc2c, 0xc218, 0xd76c, 0xaca9, 0xcd1d, 0xb834, 0xd6fc, 0xcd09, 0xc12d, 0xb839,
	0xc560, 0xc758, 0xd611, 0xc870, 0xd68c, 0xb2ec, 0xb18d, 0xb78c, 0xc720, 0xd76c, 0xace0, 0xd6c8, 0xc2e0, 0xc8fc, 0xb3c4, 0xc694,
	0xd601, 0xb78c, 0xd45c, 0xc601, 0xb82c, 0xbb35, 0xd3ed, 0xc124, 0xb824, 0xb78d, 0xc624, 0xd6c8, 0xad11, 0xc0ad, 0xb8cc, 0xb825,
	0xb85c, 0xc791, 0xb8cc, 0xc12c, 0xd76c, 0xc12d, 0xb8e1, 0xc5fd, 0xcc2c, 0xc591, 0xc57d, 0xb780, 0xcd1d, 0xc791, 0xcda9, 0xad00,
	0xad6c, 0xcca0, 0xbbf8, 0xb2f9, 0xb780, 0xcd09, 0xb78c, 0xb839, 0xcc2c, 0xc6b8, 0xc870, 0xc870, 0xd30c, 0xc7c1, 0xd3ec, 0xce6d,
	0xc6d0, 0xc560, 0xc704, 0xb8cc, 0xd655, 0xc791, 0xbd80, 0xc57c, 0xd30c, 0xb2e4, 0xc57c, 0xd6a8, 0xc870, 0xc0c1, 0xc774, 0xc7a5,
	0xc0c1, 0xac00, 0xc7a5, 0xcca9, 0xc7a5, 0xc6a9, 0xc7a5, 0xd3b8, 0xd310, 0xbc18, 0xc18c, 0xc804, 0xd328, 0xb3c5, 0xcc3d, 0xd22c,
	0xc0bd, 0xd3b8, 0xcca9, 0xbc29, 0xbc15, 0xcc3d, 0xc720, 0xc6a9, 0xb3c5, 0xc544, 0xd0f1, 0xc6b0, 0xc6b0, 0xbe48, 0xad6c, 0xbaa8,
	0xd0c0, 0xbaa8, 0xb8b0, 0xc778, 0xb9dd, 0xbc29, 0xbaa8, 0xbaa9, 0xac15, 0xbb3c, 0xc5b8, 0xac00, 0xd328, 0xc0ac, 0xcc9c, 0xace0,
	0xc720, 0xac00, 0xc0dd, 0xbb34, 0xc800, 0xacac, 0xad8c, 0xc804, 0xc790, 0xd2b9, 0xd76c, 0xbc29, 0xacbd, 0xacac, 0xc624, 0xace1,
	0xc11c, 0xb9ac, 0xb9ac, 0xbd80, 0xc758, 0xac15, 0xc9c1, 0xbd84, 0xad8c, 0xc21c, 0xb3c5, 0xad6c, 0xac00, 0xac74, 0xbd09, 0xd3b8,
	0xacfc, 0xaca9, 0xd638, 0xcd94, 0xd76c, 0xbe44, 0xb77d, 0xac1c, 0xb9c8, 0xc0bc, 0xc704, 0xb9ac, 0xb3c8, 0xb3d9, 0xad50, 0xac15,
	0xd76c, 0xb840, 0xb3c5, 0xb835, 0xd53c, 0xd45c, 0xbc15, 0xd76c, 0xc8fc, 0xc704, 0xaddc, 0xc8fc, 0xacac, 0xacac, 0xbc1c, 0xbc94,
	0xad6c, 0xd658, 0xc2dc, 0xc791, 0xc548, 0xd790, 0xc0c1, 0xad11, 0xb9c8, 0xc6b0, 0xac15, 0xd328, 0xd6c4, 0xc544, 0xc740, 0xbcc0,
	0xc0c1, 0xc724, 0xad11, 0xb274, 0xc801, 0xacbd, 0xc911, 0xbaa9, 0xd328, 0xbe44, 0xaca9, 0xc758, 0xc131, 0xd3ec, 0xc555, 0xc774,
	0xd638, 0xb839, 0xbe44, 0xd53c, 0xb2c8, 0xc694, 0xc720, 0xad6c, 0xc6d4, 0xc800, 0xb2ec, 0xbc15, 0xace0, 0xc120, 0xc601, 0xd6e4,
	0xd55c, 0xad50, 0xd559, 0xc870, 0xae38, 0xc21c, 0xc0b0, 0xd0d1, 0xc735, 0xc218, 0xb3d9, 0xb85c, 0xb3c5, 0xd611, 0xc0ac, 0xd68c,
	0xc7c1, 0xc625, 0xc190, 0xc5ec, 0xd3d0, 0xbc29, 0xd76c, 0xacac, 0xb9ac, 0xd611, 0xc740, 0xc0b0, 0xb791, 0xd328, 0xc81c, 0xc5f0,
	0xc0ac, 0xb9ac, 0xd55c, 0xd5d8, 0xacbd, 0xbc30, 0xbe44, 0xd6a8, 0xd328, 0xae30, 0xc608, 0xd45c, 0xc740, 0xb798, 0xc791, 0xacac,
	0xac15, 0xace4, 0xc5fc, 0xacfc, 0xc885, 0xbbf8, 0xcc3d, 0xc758, 0xc81c, 0xc7c1, 0xc560, 0xb9f9, 0xc2dc, 0xc878, 0xc0ac, 0xb835,
	0xc804, 0xb77c, 0xd638, 0xc885, 0xd6c4, 0xc678, 0xd48d, 0xc640, 0xc6d0, 0xc131, 0xc800, 0xbb18, 0xc704, 0xcc9c, 0xd5cc, 0xb2e8,
	0xc54c, 0xb178, 0xd638, 0xac00, 0xd6c4, 0xd3b8, 0xc720, 0xc720, 0xbbf8, 0xc0ac, 0xc694, 0xc190, 0xbc15, 0xba85, 0xd65c, 0xc6d0,
	0xc218, 0xb9c8, 0xc6d0, 0xc560, 0xc625, 0xc0ac, 0xd638, 0xac15, 0xc775, 0xc9c4, 0xcc3d, 0xd638, 0xb9cc, 0xacbd, 0xc7a5, 0xbaa8,
	0xc7a5, 0xcc38, 0xc624, 0xc624, 0xd638, 0xcd5c, 0xbd84, 0xad90, 0xd3d0, 0xd3d0, 0xd669, 0xbcf5, 0xb9b0, 0xd73c, 0xb3d9, 0xad50,
	0xb8cc, 0xc0ad, 0xd6a8, 0xc218, 0xb3c8, 0xaca9, 0xac08, 0xacac, 0xb3c5, 0xc608, 0xd68c, 0xd5d8, 0xd574, 0xb784, 0xc120, 0xd6c8,
	0xc601, 0xbe48, 0xd68d, 0xb204, 0xbabd, 0xb835, 0xc6b0, 0xad11, 0xc218, 0xb85c, 0xb2ec, 0xd5cc, 0xbbf8, 0xc591, 0xd658, 0xb178,
	0xb77c, 0xd5d8, 0xae30, 0xd655, 0xd604, 0xbb18, 0xc790, 0xc194, 0xb85c, 0xc625, 0xc219, 0xc655, 0xaddc, 0xac00, 0xc815, 0xb975,
	0xd314, 0xae30, 0xac15, 0xc801, 0xcc9c, 0xac04, 0xad6c, 0xc6b0, 0xae30, 0xc5ec, 0xcc3d, 0xb9c8, 0xac15, 0xc624, 0xbd80, 0xbbfc,
	0xac1c, 0xc544, 0xbd84, 0xbcc0, 0xbc29, 0xbaa8, 0xacb0, 0xc724, 0xac01, 0xc644, 0xac10, 0xb9e4, 0xb2e8, 0xbe48, 0xc704, 0xbc30,
	0xd604, 0xcc3d, 0xb839, 0xb300, 0xc608, 0xac10, 0xd3c9, 0xc810, 0xbd80, 0xd604, 0xc0c8, 0xd30c, 0xc790, 0xad6c, 0xac11, 0xc18c,
	0xbc15, 0xc790, 0xac00, 0xc5fc, 0xc0dd, 0xc2e0, 0xc774, 0xc870, 0xac00, 0xbbfc, 0xc0b0, 0xb958, 0xd544, 0xc9c4, 0xc9c4, 0xac01,
	0xbc95, 0xb871, 0xc9c4, 0xad50, 0xcc9c, 0xb824, 0xad11, 0xc120, 0xc8fc, 0xacf5, 0xc5f0, 0xd6c4, 0xc591, 0xd6c4, 0xb77d, 0xc219,
	0xc8fc, 0xae08, 0xc740, 0xc21c, 0xbcf4, 0xc774, 0xd5a5, 0xc694, 0xd569, 0xd615, 0xaddc, 0xcda9, 0xc220, 0xbc18, 0xd328, 0xb85c,
	0xb2f9, 0xb8b0, 0xd63c, 0xbb38, 0xc544, 0xc815, 0xc81c, 0xbb34, 0xc624, 0xc131, 0xad70, 0xb9e4, 0xd328, 0xc815, 0xd604, 0xcc29,
	0xd568, 0xc120, 0xc5b8, 0xad6c, 0xd604, 0xb791, 0xb9ac, 0xc218, 0xbd80, 0xb958, 0xc57c, 0xd76c, 0xb989, 0xb9ac, 0xc9c4, 0xb828,
	0xc1c4, 0xc18c, 0xbd09, 0xc644, 0xc815, 0xbcd1, 0xc794, 0xc26c, 0xbbfc, 0xc5ed, 0xac70, 0xce68, 0xb798, 0xbbfc, 0xb9dd, 0xc720,
	0xc804, 0xc219, 0xd0c1, 0xbc30, 0xc7c1, 0xd638, 0xae30, 0xc545, 0xace4, 0xcc3d, 0xae30, 0xbd09, 0xc644, 0xb85d, 0xc885, 0xad00,
	0xc5fc, 0xc870, 0xbc30, 0xb9bc, 0xae08, 0xbe44, 0xd30c, 0xac15, 0xd0c1, 0xae08, 0xbc95, 0xae08, 0xacbd, 0xb3c4, 0xac1c, 0xd63c,
	0xc6b0, 0xbaa8, 0xbbf8, 0xcd98, 0xc120, 0xc81c, 0xc131, 0xb300, 0xc720, 0xbbfc, 0xac10, 0xc704, 0xc5f0, 0xd658, 0xd574, 0xcc9c,
	0xc804, 0xc804, 0xcc3d, 0xb828, 0xc804, 0xd558, 0xb2e8, 0xc6d0, 0xc57c, 0xb178, 0xd638, 0xc601, 0xc720, 0xd669, 0xc11c, 0xc2ac,
	0xb958, 0xc0ac, 0xc6a9, 0xc1c4, 0xc694, 0xc628, 0xc624, 0xc9c4, 0xc9c4, 0xd615, 0xb9c8, 0xb3c4, 0xb958, 0xb2f9, 0xb960, 0xb791,
	0xad34, 0xc804, 0xcc3d, 0xcc28, 0xace1, 0xc870, 0xc694, 0xc560, 0xbe48, 0xc11c, 0xc0c1, 0xace4, 0xc804, 0xc885, 0xadfc, 0xc608,
	0xcd5c, 0xcd1d, 0xae30, 0xb9ac, 0xc601, 0xc18c, 0xad6c, 0xc120, 0xc624, 0xb828, 0xbb38, 0xc7a5, 0xc778, 0xd654, 0xc601, 0xccb4,
	0xb85c, 0xbb34, 0xb4f1, 0xc218, 0xc99d, 0xc2ec, 0xac70, 0xd0d5, 0xb9b0, 0xb8cc, 0xacbd, 0xc219, 0xd669, 0xad34, 0xbc15, 0xacbd,
	0xbc88, 0xc9c4, 0xb958, 0xae30, 0xd61c, 0xacbd, 0xc560, 0xbcbd, 0xcc2c, 0xac70, 0xc870, 0xb2f9, 0xad50, 0xace4, 0xb2e8, 0xd68c,
	0xd658, 0xc2ac, 0xc218, 0xc804, 0xcd08, 0xc5ec, 0xc2e0, 0xbd80, 0xbe48, 0xc219, 0xbb38, 0xcde8, 0xb78c, 0xc0c8, 0xc81c, 0xc120,
	0xc5f0, 0xd655, 0xac1c, 0xb8b0, 0xb3c5, 0xb825, 0xc9c8, 0xc720, 0xb824, 0xcc2c, 0xacbd, 0xc801, 0xad34, 0xc218, 0xb784, 0xb871,
	0xb85c, 0xb825, 0xcc2c, 0xb780, 0xc601, 0xc0c8, 0xc591, 0xd734, 0xad00, 0xb3c4, 0xcc2c, 0xd658, 0xacfc, 0xd3ec, 0xc9c8, 0xbc15,
	0xd638, 0xc9d1, 0xd45c, 0xd310, 0xc591, 0xb840, 0xc640, 0xc2ed, 0xac15, 0xcc9c, 0xd310, 0xbd84, 0xbc29, 0xb2f4, 0xc639, 0xad6c,
	0xbd84, 0xbaa8, 0xd1a4, 0xd638, 0xb839, 0xc774, 0xbcd1, 0xc790, 0xbc31, 0xacac, 0xc7a5, 0xce58, 0xb9ac, 0xb2f9, 0xb9f9, 0xbd80,
	0xcd94, 0xbcd1, 0xbcc0, 0xcd94, 0xacac, 0xb9ac, 0xc790, 0xc575, 0xacc4, 0xd568, 0xb8e8, 0xc801, 0xad6c, 0xb9f9, 0xc804, 0xd33d,
	0xb9b0, 0xc99d, 0xbb34, 0xbcbd, 0xb2f4, 0xc639, 0xc575, 0xc5b8, 0xac10, 0xb300, 0xc2ec, 0xcca8, 0xcca8, 0xac10, 0xc0c1, 0xc0dd,
	0xccad, 0xc2e0, 0xc0b0, 0xc0b0, 0xc720, 0xc0dd, 0xc18c, 0xc0bc, 0xc6a9, 0xc194, 0xb85d, 0xbcf4, 0xc6a9, 0xbd09, 0xbabd, 0xb155,
	0xc804, 0xc720, 0xac11, 0xc2e0, 0xc0bd, 0xc804, 0xbd88, 0xb0a8, 0xc804, 0xbcd1, 0xc815, 0xd654, 0xc815, 0xacac, 0xce58, 0xb9f9,
	0xbe44, 0xbe44, 0xad6c, 0xc21c, 0xb958, 0xcc3d, 0xbb18, 0xade0, 0xd310, 0xbd80, 0xacbd, 0xc804, 0xacc4, 0xacc4, 0xacac, 0xc678,
	0xbcf5, 0xc804, 0xbb18, 0xb2f5, 0xbc18, 0xac15, 0xc640, 0xbcf5, 0xb0a8, 0xb958, 0xbd84, 0xc9c4, 0xcd95, 0xbb34, 0xbb34, 0xce21,
	0xc804, 0xd574, 0xd544, 0xb2f5, 0xce58, 0xb7b5, 0xd734, 0xb7b5, 0xbc88, 0xc758, 0xbc88, 0xd654, 0xc5ec, 0xc5ec, 0xbb34, 0xc900,
	0xb9ac, 0xb958, 0xc5ec, 0xcca9, 0xc8fc, 0xd654, 0xb2f9, 0xcca0, 0xae30, 0xc6d0, 0xac15, 0xc2b9, 0xcc3d, 0xd1a4, 0xb8b0, 0xae30,
	0xc7a1, 0xb958, 0xcca9, 0xd0c4, 0xb9b0, 0xac15, 0xac15, 0xc8fc, 0xbcbd, 0xcca9, 0xcca9, 0xd544, 0xc12d, 0xb2e8, 0xc18c, 0xc18c,
	0xccb4, 0xc758, 0xb141, 0xb0b4, 0xc815, 0xbe44, 0xc808, 0xb8cc, 0xacf5, 0xd758, 0xad6c, 0xc8fc, 0xd558, 0xc0b0, 0xd6c4, 0xd559,
	0xb824, 0xc591, 0xc9c4, 0xc6b0, 0xd30c, 0xac1c, 0xd608, 0xc800, 0xc544, 0xcdcc, 0xbe44, 0xc5ed, 0xb825, 0xc885, 0xcc3d, 0xd48d,
	0xc8fc, 0xd3ec, 0xd53c, 0xac10, 0xc544, 0xc790, 0xc124, 0xc800, 0xb2ec, 0xc9c4, 0xbc95, 0xc9c0, 0xb3d9, 0xc800, 0xc9c8, 0xbe44,
	0xad6c, 0xc810, 0xac00, 0xd604, 0xc790, 0xbcd1, 0xb2d0, 0xc99d, 0xc639, 0xacbd, 0xc804, 0xcda9, 0xd1b5, 0xc774, 0xd574, 0xc720,
	0xd68c, 0xd0c0, 0xc591, 0xce58, 0xce58, 0xd754, 0xc544, 0xb9e4, 0xb450, 0xacbd, 0xd6a8, 0xd1b5, 0xb3c5, 0xb9dd, 0xbe44, 0xc18c,
	0xc0b0, 0xbd80, 0xb9ac, 0xc9c0, 0xc88c, 0xd0c8, 0xc624, 0xc0ac, 0xb85c, 0xc218, 0xd0c4, 0xac04, 0xc5ed, 0xbd95, 0xc7a5, 0xad00,
	0xb2f4, 0xbe44, 0xb9c8, 0xb9bc, 0xce58, 0xacc4, 0xc804, 0xc554, 0xccb4, 0xbe44, 0xbe44, 0xbbfc, 0xace0, 0xd1f4, 0xc544, 0xc704,
	0xc5b4, 0xcdcc, 0xc544, 0xcd09, 0xcd08, 0xb2e8, 0xcc38, 0xc885, 0xacc4, 0xc720, 0xd6c4, 0xd48d, 0xb784, 0xc591, 0xc2ec, 0xb3c4,
	0xc720, 0xacfc, 0xc628, 0xd0c4, 0xace0, 0xd558, 0xc74c, 0xc608, 0xb8e8, 0xc18c, 0xad90, 0xacc4, 0xc2dd, 0xad00, 0xc608, 0xc628,
	0xcc99, 0xcc3d, 0xbc18, 0xc678, 0xb958, 0xcc44, 0xc218, 0xd559, 0xc804, 0xd0d1, 0xbcc4, 0xd0c4, 0xc7a5, 0xd45c, 0xcc38, 0xc871,
	0xb77c, 0xc608, 0xc885, 0xcd94, 0xc7a5, 0xcc44, 0xc218, 0xc0c9, 0xac00, 0xc870, 0xb8e8, 0xb8e8, 0xb9c9, 0xadfc, 0xc740, 0xc601,
	0xd669, 0xbcf5, 0xb8cc, 0xb96d, 0xcd08, 0xb958, 0xb85c, 0xac04, 0xd3d0, 0xb2e8, 0xc74c, 0xd559, 0xc554, 0xbc18, 0xac04, 0xd658,
	0xad34, 0xb18d, 0xc720, 0xbbf8, 0xc5b5, 0xc639, 0xbcbd, 0xb8b0, 0xb824, 0xc11c, 0xb2f4, 0xb984, 0xc804, 0xb984, 0xb77c, 0xbcc4,
	0xc81c, 0xce58, 0xc591, 0xc120, 0xc808, 0xc9d5, 0xbb35, 0xb825, 0xacfd, 0xb77c, 0xc801, 0xc804, 0xc120, 0xc601, 0xc740, 0xad6c,
	0xc639, 0xd0c4, 0xc804, 0xb8e8, 0xb828, 0xb780, 0xbc1c, 0xac04, 0xacc4, 0xbc1c, 0xbc1c, 0xb4f1, 0xbc1c, 0xbc31, 0xbc31, 0xac00,
	0xae09, 0xc870, 0xc870, 0xbaa8, 0xc801, 0xd30c, 0xac1c, 0xd669, 0xadc0, 0xccb4, 0xb839, 0xace0, 0xb9d0, 0xc989, 0xad50, 0xd33d,
	0xace0, 0xc560, 0xc544, 0xd638, 0xd55c, 0xbcbd, 0xd658, 0xc8fc, 0xcc9c, 0xc11d, 0xc560, 0xd6a8, 0xd638, 0xd669, 0xd638, 0xcc45,
	0xcd5c, 0xd638, 0xd6a8, 0xc5fd, 0xd30c, 0xd638, 0xad50, 0xc560, 0xc131, 0xd669, 0xb825, 0xd45c, 0xd559, 0xc791, 0xd53c, 0xac04,
	0xd3ec, 0xcd94, 0xad70, 0xad6c, 0xc900, 0xc791, 0xc0ac, 0xace0, 0xad70, 0xad70, 0xcd94, 0xc0ac, 0xc77c, 0xc804, 0xb3c5, 0xba85,
	0xae30, 0xc601, 0xc6b0, 0xbc30, 0xc870, 0xcda9, 0xbd84, 0xd569, 0xc601, 0xd654, 0xc775, 0xbc1c, 0xc644, 0xd569, 0xc559, 0xc794,
	0xc5fc, 0xac10, 0xd569, 0xc6b0, 0xd68c, 0xbc94, 0xac1c, 0xb3c4, 0xbc18, 0xbcf4, 0xad6c, 0xc131, 0xb3c4, 0xb85d, 0xc794, 0xb9f9,
	0xb9ac, 0xc9c4, 0xd601, 0xac10, 0xbc18, 0xad00, 0xc554, 0xb85c, 0xc218, 0xc8fc, 0xd0d5, 0xc554, 0xace0, 0xb824, 0xbaa9, 0xc815,
	0xac04, 0xc6b0, 0xb9f9, 0xb9dd, 0xc9c1, 0xae30, 0xc6d0, 0xc804, 0xc0c1, 0xc21c, 0xd754, 0xd61c, 0xbc18, 0xbd09, 0xc21c, 0xbbfc,
	0xba85, 0xc131, 0xc2dc, 0xc6b4, 0xba74, 0xd310, 0xbc29, 0xbb18, 0xd0d0, 0xbbf8, 0xbaa8, 0xac04, 0xd604, 0xad6c, 0xc2dc, 0xc559,
	0xc815, 0xc720, 0xc2e0, 0xd65c, 0xb2f5, 0xc9c4, 0xd669, 0xad6c, 0xc2e0, 0xc774, 0xc0dd, 0xb9e4, 0xb9d0, 0xc800, 0xc9c4, 0xc9c4,
	0xba74, 0xc800, 0xc6d0, 0xc9c8, 0xc774, 0xc790, 0xc790, 0xcd08, 0xc7a1, 0xd604, 0xbcd1, 0xbbf8, 0xb8e1, 0xd734, 0xb3d9, 0xbbf8,
	0xc9c8, 0xc774, 0xc774, 0xba85, 0xc21c, 0xce58, 0xad11, 0xad8c, 0xbaa8, 0xc9c4, 0xc870, 0xc591, 0xc548, 0xb9e5, 0xc911, 0xb9e5,
	0xcc29, 0xc815, 0xbbf8, 0xc900, 0xcd08, 0xd658, 0xd658, 0xc81c, 0xc815, 0xc88c, 0xacac, 0xc544, 0xb9cc, 0xd604, 0xd76c, 0xace4,
	0xb798, 0xac80, 0xc12c, 0xc804, 0xace4, 0xc644, 0xb989, 0xc11d, 0xacbd, 0xb82c, 0xc560, 0xc815, 0xc815, 0xb9ac, 0xb798, 0xc218,
	0xad8c, 0xc218, 0xc218, 0xb3c5, 0xbe44, 0xbe44, 0xbaa9, 0xd63c, 0xc608, 0xb85d, 0xc5ed, 0xcca9, 0xcc44, 0xcd94, 0xc720, 0xd63c,
	0xb9d0, 0xd558, 0xc131, 0xd734, 0xace4, 0xc7ac, 0xcd98, 0xac74, 0xbbf8, 0xb3c4, 0xd6c4, 0xd6e4, 0xc81c, 0xaddc, 0xace0, 0xc608,
	0xbb34, 0xd601, 0xbc8c, 0xc62c, 0xbb18, 0xcd94, 0xadc0, 0xbbf8, 0xc639, 0xad6c, 0xb2f9, 0xc9c4, 0xac11, 0xc218, 0xd560, 0xacbd,
	0xb9c9, 0xba85, 0xb9cc, 0xd6c8, 0xcc45, 0xc7a5, 0xc608, 0xc870, 0xad6c, 0xb9c9, 0xc21c, 0xc885, 0xb8e8, 0xb9ac, 0xb9cc, 0xd45c,
	0xb2f9, 0xaddc, 0xbabd, 0xd658, 0xc21c, 0xbcc4, 0xd76c, 0xcd08, 0xbc15, 0xcd09, 0xc9d5, 0xc2ec, 0xc21c, 0xb8cc, 0xcca0, 0xac04,
	0xac10, 0xc5fd, 0xd73c, 0xb3d9, 0xbb34, 0xb9b0, 0xadc0, 0xd55c, 0xc5fd, 0xc560, 0xd68c, 0xcca8, 0xac80, 0xace0, 0xc870, 0xad6c,
	0xbbf8, 0xcd94, 0xc18c, 0xb155, 0xd6c8, 0xc694, 0xd655, 0xbabd, 0xba74, 0xbe48, 0xba74, 0xb824, 0xad11, 0xd655, 0xd604, 0xba74,
	0xd559, 0xb85c, 0xbabd, 0xb8e1, 0xad00, 0xb9cc, 0xb9ac, 0xcd09, 0xb2f9, 0xac10, 0xcd09, 0xbaa8, 0xae0d, 0xae0d, 0xc728, 0xc0ad,
	0xc0c9, 0xd655, 0xc2dc, 0xc758, 0xc2e0, 0xc9c0, 0xd6c4, 0xc2e0, 0xc601, 0xad6c, 0xc8fc, 0xad50, 0xc88c, 0xb2e8, 0xc65c, 0xad50,
	0xc99d, 0xd655, 0xd328, 0xc11d, 0xc815, 0xccb4, 0xae30, 0xc790, 0xc548, 0xc62c, 0xd0c1, 0xace8, 0xac15, 0xc11d, 0xbc18, 0xad11,
	0xd0d5, 0xb9c8, 0xc0ac, 0xb2e8, 0xacb0, 0xb840, 0xbd80, 0xbbfc, 0xb098, 0xd68d, 0xac15, 0xc9c0, 0xccb4, 0xac10, 0xac1c, 0xbd84,
	0xc555, 0xc544, 0xbe44, 0xcca0, 0xc5f0, 0xc1c4, 0xc804, 0xcc28, 0xb3c8, 0xc640, 0xc5f0, 0xae08, 0xd48d, 0xac81, 0xb9d0, 0xc0ac,
	0xc800, 0xc625, 0xb77c, 0xd0c0, 0xd0c0, 0xc9c0, 0xcc44, 0xce68, 0xc561, 0xd3d0, 0xbaa8, 0xc8fc, 0xb9bd, 0xd3c4, 0xb178, 0xbe59,
	0xd33d, 0xb839, 0xd3ec, 0xb825, 0xd30c, 0xbc1c, 0xbc15, 0xc2e0, 0xc7a1, 0xc560, 0xb824, 0xb871, 0xb3d9, 0xc6a9, 0xb825, 0xad11,
	0xcd9c, 0xac31, 0xc804, 0xc8fc, 0xad11, 0xaddc, 0xc555, 0xb1e8, 0xd560, 0xb960, 0xc704, 0xc560, 0xb77d, 0xac04, 0xd615, 0xc5f0,
	0xb3d9, 0xd33d, 0xc11c, 0xb85c, 0xd64d, 0xc11d, 0xd611, 0xad50, 0xd68c, 0xc560, 0xad50, 0xc5ed, 0xac31, 0xcd08, 0xace1, 0xcc9c,
	0xb791, 0xad49, 0xc5ec, 0xd6a8, 0xd611, 0xb9dd, 0xb871, 0xc6a9, 0xcc28, 0xcc99, 0xc544, 0xb958, 0xacbd, 0xb9dd, 0xd559, 0xc5f0,
	0xc0ac, 0xace4, 0xace1, 0xc801, 0xd654, 0xb1e8, 0xc7a0, 0xd5d8, 0xd559, 0xc22d, 0xd0c1, 0xac31, 0xbd95, 0xc5c4, 0xcd94, 0xacf5,
	0xc7c1, 0xae30, 0xc885, 0xccad, 0xb9bc, 0xade0, 0xd30c, 0xc815, 0xbbfc, 0xc870, 0xc804, 0xd558, 0xb85d, 0xc560, 0xc1c4, 0xc791,
	0xb989, 0xbe44, 0xc74c, 0xb300, 0xbb34, 0xae30, 0xb860, 0xc644, 0xc804, 0xac15, 0xbc30, 0xc801, 0xcc38, 0xc5f0, 0xc554, 0xc124,
	0xc815, 0xb3c5, 0xd0c0, 0xac08, 0xc601, 0xd3b8, 0xac1d, 0xbcbd, 0xc678, 0xc11d, 0xce68, 0xb2e8, 0xd558, 0xd0d5, 0xc81c, 0xb1cc,
	0xd33d, 0xac10, 0xc81c, 0xd0c4, 0xc0ac, 0xc815, 0xacc4, 0xc21c, 0xd48d, 0xc120, 0xd655, 0xd655, 0xb9c8, 0xacf5, 0xb144, 0xc194,
	0xc561, 0xc790, 0xb958, 0xc0ac, 0xb2f9, 0xbc29, 0xd65c, 0xbe44, 0xc678, 0xc0c1, 0xb8b0, 0xcc28, 0xc804, 0xd560, 0xacc4, 0xb834,
	0xbc18, 0xc560, 0xc6b4, 0xd1f4, 0xcc45, 0xac1c, 0xb78d, 0xbd80, 0xc694, 0xace4, 0xc804, 0xcc38, 0xccb4, 0xc624, 0xd33d, 0xb959,
	0xb1e8, 0xac10, 0xcc3d, 0xcc38, 0xc740, 0xb8b0, 0xd45c, 0xc801, 0xb9c8, 0xcc99, 0xcd5c, 0xc885, 0xacbd, 0xc21c, 0xb95c, 0xae30,
	0xc120, 0xb85c, 0xac70, 0xc99d, 0xb4f1, 0xac04, 0xc11d, 0xb9b0, 0xc815, 0xc810, 0xad11, 0xbc18, 0xc7a1, 0xad50, 0xc81c, 0xb825,
	0xac04, 0xcd08, 0xd76c, 0xc7a5, 0xad50, 0xb3c8, 0xd5d8, 0xc6b1, 0xcd94, 0xad50, 0xaca9, 0xd0dd, 0xb8b0, 0xac08, 0xcd08, 0xae09,
	0xac01, 0xb2f9, 0xc758, 0xac15, 0xbcbd, 0xbcbd, 0xc5ec, 0xbe48, 0xae09, 0xc560, 0xac1c, 0xac10, 0xc5ec, 0xc5f0, 0xbabd, 0xd3ec,
	0xc790, 0xbc15, 0xc591, 0xb9d0, 0xcc30, 0xd604, 0xad11, 0xb8b0, 0xb8b0, 0xc9c8, 0xb824, 0xb825, 0xbc18, 0xd655, 0xd3ec, 0xc601,
	0xb825, 0xb871, 0xb871, 0xb9c8, 0xbc15, 0xc0c1, 0xad00, 0xb78c, 0xcc30, 0xc554, 0xc2dc, 0xc2dc, 0xb840, 0xc789, 0xc0ac, 0xc57d,
	0xc0ac, 0xae30, 0xc57c, 0xb9c8, 0xac1c, 0xc694, 0xcc9c, 0xae30, 0xae30, 0xc9c0, 0xd33d, 0xb300, 0xcda9, 0xc784, 0xc758, 0xc11d,
	0xc6b0, 0xc9c8, 0xcd08, 0xbd88, 0xbd80, 0xbe44, 0xc870, 0xc9c0, 0xc0b0, 0xbbf8, 0xc870, 0xac70, 0xd638, 0xcd95, 0xc2e0, 0xc218,
	0xc0ac, 0xc2dc, 0xb2c8, 0xb824, 0xc6b0, 0xc0c1, 0xc624, 0xc870, 0xd45c, 0xc8fc, 0xada4, 0xd611, 0xc9c0, 0xc81c, 0xace0, 0xc815,
	0xace0, 0xc138, 0xce68, 0xc2e0, 0xac1c, 0xace4, 0xccb4, 0xb3c4, 0xd654, 0xb3c4, 0xae30, 0xace0, 0xad00, 0xcd40, 0xb989, 0xb85d,
	0xd488, 0xae08, 0xb3c4, 0xc2dd, 0xb85d, 0xc120, 0xbe44, 0xc800, 0xd718, 0xc720, 0xacc4, 0xc778, 0xc790, 0xd654, 0xc815, 0xbcf5,
	0xc6d0, 0xc6b0, 0xc120, 0xc591, 0xc81c, 0xc758, 0xb9e4, 0xc0ac, 0xccb4, 0xbc30, 0xc791, 0xc9c4, 0xc601, 0xc9c1, 0xace0, 0xb2f9,
	0xc0ac, 0xb9c8, 0xd0d1, 0xbd80, 0xd6e4, 0xae30, 0xc5b4, 0xd76c, 0xae30, 0xc0ac, 0xc120, 0xb2f4, 0xd68c, 0xc218, 0xb840, 0xb18d,
	0xb2c8, 0xb3c4, 0xb824, 0xc591, 0xc57d, 0xc81c, 0xcc2c, 0xb958, 0xc720, 0xc6b0, 0xc639, 0xb9ac, 0xc124, 0xae08, 0xd654, 0xb3c5,
	0xc218, 0xc0ac, 0xc778, 0xb3c5, 0xc790, 0xd0c0, 0xac04, 0xc608, 0xc120, 0xbcd1, 0xb144, 0xcd94, 0xcd94, 0xcda9, 0xbd84, 0xbaa8,
	0xc6b4, 0xacfc, 0xcd08, 0xc9c0, 0xac31, 0xbe44, 0xc9c0, 0xc5b4, 0xbe44, 0xace0, 0xbc18, 0xd53c, 0xb2c8, 0xb825, 0xc720, 0xc870,
	0xbe44, 0xbc1c, 0xb839, 0xb9d0, 0xce6d, 0xc810, 0xc9c4, 0xc559, 0xc791, 0xc9c8, 0xc9c0, 0xcd9c, 0xac70, 0xc790, 0xd65c, 0xc801,
	0xce6d, 0xb3d9, 0xce58, 0xd65c, 0xd569, 0xc778, 0xc790, 0xc9c8, 0xac08, 0xc784, 0xd22c, 0xc774, 0xc8fc, 0xc608, 0xb18d, 0xbd80,
	0xd76c, 0xace0, 0xb791, 0xbd80, 0xce21, 0xc138, 0xb824, 0xace4, 0xac04, 0xac31, 0xc81c, 0xc815, 0xb3c4, 0xcd08, 0xc138, 0xc544,
	0xb95c, 0xb959, 0xace0, 0xc791, 0xc784, 0xc900, 0xbc29, 0xd328, 0xae30, 0xc9c1, 0xce58, 0xade0, 0xb989, 0xd33d, 0xacfc, 0xd488,
	0xc870, 0xc878, 0xc6b1, 0xc18c, 0xc218, 0xd5a5, 0xc758, 0xc124, 0xbcc0, 0xae30, 0xbcf5, 0xbcbd, 0xb098, 0xac1c, 0xc885, 0xc885,
	0xc11c, 0xce6d, 0xb3c4, 0xc740, 0xb834, 0xc790, 0xc6b1, 0xc9c1, 0xcd95, 0xc9c4, 0xce58, 0xb3c4, 0xac00, 0xacc4, 0xace0, 0xace0,
	0xace1, 0xc6a9, 0xc218, 0xc6a9, 0xc81c, 0xac15, 0xbaa9, 0xc0bc, 0xbbf8, 0xce58, 0xae30, 0xb959, 0xc18c, 0xc801, 0xc601, 0xc740,
	0xcd94, 0xc0c9, 0xc870, 0xc775, 0xd669, 0xcca9, 0xae30, 0xc218, 0xd6a8, 0xbcf5, 0xad50, 0xcc29, 0xb3d9, 0xcd5c, 0xb824, 0xc218,
	0xb18d, 0xc0c9, 0xc608, 0xc591, 0xb098, 0xc5ec, 0xbe48, 0xc81c, 0xd1f4, 0xc628, 0xce6d, 0xd655, 0xad11, 0xb824, 0xd45c, 0xc0c9,
	0xc591, 0xc791, 0xb9ac, 0xcc2c, 0xd608, 0xc54c, 0xad6c, 0xad81, 0xc11d, 0xad81, 0xacf5, 0xc6b0, 0xc0bc, 0xc815, 0xc694, 0xcc9c,
	0xb454, 0xb3cc, 0xb85c, 0xc808, 0xcc29, 0xc694, 0xd3c4, 0xbc15, 0xc694, 0xbcd1, 0xc640, 0xc904, 0xad50, 0xaddc, 0xc870, 0xc624,
	0xaddc, 0xc694, 0xc9c8, 0xcc3d, 0xc694, 0xc870, 0xad50, 0xcc3d, 0xad70, 0xd6a8, 0xc131, 0xad6c, 0xcc2c, 0xc640, 0xb2f4, 0xad74,
	0xacfc, 0xcd2c, 0xd68d, 0xc194, 0xad00, 0xaddc, 0xb450, 0xd0c1, 0xc74c, 0xc640, 0xc640, 0xc54c, 0xc720, 0xad6c, 0xad81, 0xc694,
	0xc694, 0xc870, 0xb8cc, 0xc720, 0xc804, 0xc870, 0xad6c, 0xb8cc, 0xc2e4, 0xc624, 0xaddc, 0xcc3d, 0xc18c, 0xad00, 0xad00, 0xb96d,
	0xd0f1, 0xcde8, 0xb8cc, 0xc870, 0xcc2c, 0xaddc, 0xad81, 0xb450, 0xc870, 0xb871, 0xc808, 0xb9bd, 0xcc98, 0xc2ed, 0xbd80, 0xcc9c,
	0xcd09, 0xd6a1, 0xae30, 0xbaa8, 0xc2b9, 0xbd84, 0xc218, 0xbb18, 0xad6c, 0xcc38, 0xc800, 0xb839, 0xb8e1, 0xbcd1, 0xacbd, 0xacbd,
	0xc7a5, 0xbc31, 0xc0ac, 0xc900, 0xad49, 0xb3d9, 0xc1a1, 0xc815, 0xc870, 0xc758, 0xc218, 0xc815, 0xad6c, 0xac08, 0xbcd1, 0xb2e8,
	0xb9ac, 0xc804, 0xc99d, 0xb4f1, 0xc900, 0xd654, 0xacbd, 0xac10, 0xacbd, 0xc8fd, 0xcd95, 0xb975, 0xbd09, 0xc6b0, 0xc9c0, 0xac04,
	0xb9dd, 0xcd95, 0xd658, 0xb3c5, 0xacc4, 0xd6a8, 0xd30c, 0xc0b0, 0xae09, 0xc2e0, 0xc870, 0xc21c, 0xc544, 0xccb4, 0xc6d0, 0xd640,
	0xd56d, 0xc18c, 0xae08, 0xbe44, 0xd544, 0xacac, 0xc774, 0xb3d9, 0xc810, 0xc0dd, 0xac11, 0xc801, 0xc904, 0xb0a9, 0xd0dc, 0xace0,
	0xb9bd, 0xcc28, 0xbbfc, 0xd3ec, 0xc18c, 0xc0ac, 0xbd80, 0xcc45, 0xbd84, 0xd328, 0xb2ec, 0xc790, 0xc81c, 0xb839, 0xcc29, 0xb178,
	0xbd88, 0xad6c, 0xbc88, 0xac00, 0xac00, 0xbc94, 0xc2dc, 0xbb18, 0xd30c, 0xc138, 0xc804, 0xacf5, 0xb871, 0xba85, 0xbcc0, 0xb77d,
	0xacc4, 0xace1, 0xc9c0, 0xc778, 0xc694, 0xc120, 0xd544, 0xacf5, 0xad04, 0xb4f1, 0xd6a8, 0xadfc, 0xc804, 0xc21c, 0xc5ec, 0xbc8c,
	0xad11, 0xcd95, 0xd1b5, 0xacc4, 0xb2f5, 0xd589, 0xcc45, 0xc911, 0xad6c, 0xb8b0, 0xd544, 0xc0ac, 0xb2f9, 0xc7c1, 0xcc45, 0xbd80,
	0xade0, 0xb3c4, 0xd30c, 0xb9ac, 0xb791, 0xac70, 0xad00, 0xacac, 0xd568, 0xd1b5, 0xac11, 0xc9c0, 0xc131, 0xc0b0, 0xc11c, 0xc800,
	0xc791, 0xc18c, 0xc18c, 0xc815, 0xd611, 0xc5f0, 0xace0, 0xcf8c, 0xac04, 0xc8fc, 0xad11, 0xac15, 0xc6b4, 0xc624, 0xcca8, 0xc18c,
	0xac04, 0xbd80, 0xb798, 0xcd94, 0xbe44, 0xd3d0, 0xbe44, 0xac1c, 0xc9c0, 0xad34, 0xc5b4, 0xc804, 0xc870, 0xace0, 0xd638, 0xc7c1,
	0xc815, 0xc0bd, 0xcd94, 0xb85d, 0xbc15, 0xae30, 0xb9bc, 0xc0b0, 0xade0, 0xbcf5, 0xcc28, 0xace0, 0xacf5, 0xacb8, 0xad8c, 0xade0,
	0xcd94, 0xad00, 0xc6d0, 0xcc45, 0xc878, 0xd30c, 0xcc45, 0xd611, 0xd0c1, 0xb77c, 0xb2e8, 0xc18c, 0xc57d, 0xc804, 0xd6e4, 0xd3b8,
	0xc21c, 0xc0c1, 0xc120, 0xbcd1, 0xc7a0, 0xc131, 0xd638, 0xc774, 0xc800, 0xc57d, 0xc900, 0xb960, 0xc625, 0xb3d9, 0xc18c, 0xc0bd,
	0xc808, 0xd669, 0xc131, 0xbbf8, 0xbc94, 0xcc9c, 0xc804, 0xd3b8, 0xbd09, 0xcd95, 0xd64d, 0xd611, 0xd6c4, 0xcd94, 0xbb18, 0xac10,
	0xace0, 0xada4, 0xc2dd, 0xb8e8, 0xc6b4, 0xd569, 0xb2f9, 0xd655, 0xcd94, 0xace0, 0xbe44, 0xc57d, 0xc99d, 0xad6c, 0xb148, 0xcc9c,
	0xc18c, 0xcc2c, 0xacf5, 0xbc29, 0xb3c5, 0xb960, 0xbe44, 0xcc29, 0xc800, 0xc0ac, 0xc9c0, 0xcd95, 0xcc3d, 0xb871, 0xb78c, 0xc804,
	0xbd80, 0xb9ac, 0xc218, 0xd544, 0xc801, 0xcd1d, 0xc5b8, 0xbd09, 0xc7a0, 0xcc2c, 0xd328, 0xd45c, 0xb450, 0xc5b4, 0xba78, 0xc804,
	0xcc45, 0xc0ac, 0xada4, 0xc774, 0xd638, 0xc0b0, 0xad6c, 0xc871, 0xbcd1, 0xcd94, 0xae30, 0xada4, 0xc18d, 0xb8e8, 0xcc29, 0xb85d,
	0xb144, 0xc0ac, 0xcc2c, 0xc870, 0xc0ac, 0xb975, 0xb2e8, 0xb7c9, 0xc18c, 0xbc15, 0xba71, 0xc2dc, 0xd0d5, 0xb8cc, 0xb2e8, 0xc810,
	0xbcf4, 0xac04, 0xbbfc, 0xada4, 0xb300, 0xad50, 0xb4f1, 0xd669, 0xc21c, 0xb85c, 0xc7a0, 0xc18c, 0xb85c, 0xc11c, 0xc7a0, 0xae30,
	0xd328, 0xae30, 0xbe44, 0xac04, 0xac70, 0xb85c, 0xb85d, 0xcca8, 0xd30c, 0xb2f9, 0xc0c8, 0xacfc, 0xad6c, 0xcca8, 0xb834, 0xbd80,
	0xc8fc, 0xb8b0, 0xc2dd, 0xb78c, 0xada4, 0xc5ec, 0xd655, 0xd638, 0xc9c4, 0xb300, 0xc801, 0xc12d, 0xc8fc, 0xc801, 0xc758, 0xae30,
	0xb4f1, 0xcc2c, 0xc8fc, 0xbc88, 0xc218, 0xcd94, 0xcca8, 0xacfd, 0xb4f1, 0xb85d, 0xb85c, 0xc804, 0xd0c1, 0xc601, 0xc5b4, 0xb8b0,
	0xb871, 0xcca8, 0xb834, 0xb780, 0xcca8, 0xc57d, 0xc885, 0xac70, 0xb834, 0xbcc0, 0xb2e8, 0xcc2c, 0xb9ac, 0xc0ac, 0xb77c, 0xc601,
	0xd655, 0xcc29, 0xc720, 0xbbf8, 0xc801, 0xc2ed, 0xc2e0, 0xcc45, 0xc2e0, 0xc5ec, 0xd758, 0xb958, 0xc120, 0xc790, 0xc778, 0xcd0c,
	0xc7a5, 0xcc9c, 0xad6c, 0xbe44, 0xd310, 0xbb3c, 0xc0ac, 0xac15, 0xb274, 0xbd84, 0xbe44, 0xc218, 0xc778, 0xbaa8, 0xcc99, 0xd0dc,
	0xd638, 0xd30c, 0xb9bd, 0xac10, 0xac70, 0xbc15, 0xb9d0, 0xc870, 0xc810, 0xc8fc, 0xb9ac, 0xc219, 0xc870, 0xb824, 0xc11c, 0xc18d,
	0xd64d, 0xb3d9, 0xc790, 0xcc45, 0xc6d4, 0xc8fd, 0xb9b0, 0xc7a5, 0xbc31, 0xb178, 0xbd84, 0xc774, 0xace1, 0xd569, 0xb7c9, 0xac04,
	0xbd80, 0xb7c9, 0xcc2c, 0xac31, 0xb9ac, 0xc6d4, 0xb85d, 0xad6d, 0xae30, 0xc218, 0xd328, 0xc7a5, 0xb9b0, 0xc885, 0xc815, 0xacfc,
	0xd654, 0xc0bc, 0xc0bc, 0xb2f9, 0xbcc0, 0xc720, 0xba74, 0xd6c4, 0xc11c, 0xc885, 0xd638, 0xc804, 0xcc30, 0xc790, 0xb9ac, 0xc124,
	0xbd80, 0xb2c9, 0xbe44, 0xace1, 0xc218, 0xace0, 0xb2f9, 0xad6c, 0xac00, 0xc870, 0xc7a5, 0xb2f9, 0xbbf8, 0xc0bc, 0xbd84, 0xc870,
	0xac15, 0xac15, 0xbaa8, 0xc0bc, 0xc0b0, 0xb098, 0xce58, 0xb7c9, 0xac15, 0xad34, 0xbcbd, 0xd658, 0xc11c, 0xc885, 0xd568, 0xb098,
	0xb2e8, 0xc5bc, 0xb824, 0xcc29, 0xc801, 0xc5bc, 0xc870, 0xb780, 0xba71, 0xba71, 0xaddc, 0xacc4, 0xacf5, 0xc815, 0xaddc, 0xacf5,
	0xae30, 0xcc28, 0xc8fc, 0xc21c, 0xc57d, 0xd64d, 0xc6b0, 0xd758, 0xd658, 0xc778, 0xbb38, 0xbb38, 0xad6c, 0xb0a9, 0xce58, 0xb450,
	0xb274, 0xbd80, 0xacc4, 0xc11c, 0xc21c, 0xbe44, 0xc9c4, 0xc0ac, 0xad49, 0xc9c0, 0xae09, 0xbd84, 0xc6b4, 0xc784, 0xb2f4, 0xae08,
	0xc18c, 0xbc29, 0xc0c9, 0xcd5c, 0xaddc, 0xcc30, 0xd30c, 0xae34, 0xbd80, 0xc9c8, 0xcc98, 0xc790, 0xc8fc, 0xd6a1, 0xcc30, 0xb8e8,
	0xc138, 0xbd88, 0xc124, 0xc2e0, 0xd53c, 0xc800, 0xac70, 0xb839, 0xc8fc, 0xc18c, 0xac10, 0xc559, 0xbd88, 0xd0c0, 0xc9c4, 0xd0dc,
	0xcd9c, 0xc2dc, 0xc885, 0xd604, 0xc870, 0xacbd, 0xbc18, 0xad6c, 0xb9e5, 0xc220, 0xbcf8, 0xad11, 0xacbd, 0xc784, 0xd589, 0xc124,
	0xacb0, 0xc8fc, 0xc218, 0xad18, 0xbc31, 0xc808, 0xad11, 0xd640, 0xcc28, 0xd658, 0xae0d, 0xc870, 0xd608, 0xace0, 0xad50, 0xc804,
	0xac1c, 0xb77d, 0xd604, 0xbcd1, 0xc120, 0xbcf5, 0xae09, 0xb3d9, 0xc735, 0xc870, 0xc778, 0xb958, 0xc124, 0xad8c, 0xc11c, 0xd574,
	0xc9c8, 0xd1b5, 0xc0ac, 0xac15, 0xc0c1, 0xd68c, 0xc808, 0xc9d1, 0xacac, 0xacac, 0xce58, 0xbb38, 0xc9c4, 0xb824, 0xc131, 0xad6c,
	0xc18c, 0xbc29, 0xd1b5, 0xcd08, 0xd658, 0xce68, 0xacbd, 0xc218, 0xc81c, 0xc218, 0xd611, 0xad49, 0xaca9, 0xbc1c, 0xc815, 0xc218,
	0xd0dc, 0xace4, 0xbd80, 0xacbd, 0xd638, 0xc9c0, 0xc5f0, 0xacbd, 0xbd09, 0xacc4, 0xc18d, 0xc774, 0xc885, 0xce68, 0xd0c0, 0xb824,
	0xb85d, 0xb7c9, 0xc8fc, 0xad8c, 0xc18c, 0xae30, 0xae30, 0xc900, 0xae30, 0xc6d0, 0xcc9c, 0xc120, 0xc218, 0xc720, 0xacc4, 0xb3c4,
	0xad00, 0xac15, 0xb9dd, 0xbd95, 0xcca0, 0xcc44, 0xacfc, 0xcd5c, 0xb95c, 0xb958, 0xae30, 0xd0c4, 0xbcbd, 0xc791, 0xb989, 0xba74,
	0xcc98, 0xcca9, 0xb2f4, 0xc885, 0xace4, 0xcd94, 0xc11d, 0xce58, 0xd589, 0xb7c9, 0xae34, 0xbe44, 0xc720, 0xbbfc, 0xc5ed, 0xcd1d,
	0xbc88, 0xb85d, 0xc11c, 0xc601, 0xc0c1, 0xc790, 0xc11c, 0xc0c1, 0xd568, 0xaca9, 0xc120, 0xc5f0, 0xba74, 0xc9d1, 0xb2e8, 0xc885,
	0xccb4, 0xbbfc, 0xbb18, 0xc5f0, 0xc124, 0xbcf4, 0xc2dc, 0xcd94, 0xd3b8, 0xc644, 0xae0d, 0xcd1d, 0xba74, 0xc704, 0xbd80, 0xc704,
	0xd22c, 0xad6c, 0xbb18, 0xd608, 0xb828, 0xc885, 0xd3b8, 0xd63c, 0xc778, 0xc81c, 0xc65c, 0xce58, 0xc628, 0xc815, 0xc804, 0xd0dc,
	0xd558, 0xc5f0, 0xcd1d, 0xc11c, 0xc2b9, 0xc704, 0xae0d, 0xc120, 0xc601, 0xc9c4, 0xc561, 0xcd94, 0xc5ed, 0xbc29, 0xace8, 0xbc18,
	0xcd94, 0xacb8, 0xcc29, 0xc804, 0xc0c1, 0xc628, 0xd560, 0xcd5c, 0xacc4, 0xc6a9, 0xb3c4, 0xbc15, 0xc6b4, 0xc9c4, 0xd638, 0xc695,
	0xace1, 0xc7ac, 0xb4f1, 0xd604, 0xc18c, 0xc9c4, 0xc885, 0xc870, 0xd669, 0xcc44, 0xd544, 0xbd09, 0xcd95, 0xb9ac, 0xcd95, 0xc5f0,
	0xc1c4, 0xc885, 0xb958, 0xacac, 0xacac, 0xb9cc, 0xc9d1, 0xb8e8, 0xb9c9, 0xd45c, 0xb828, 0xbbf8, 0xc120, 0xcd1d, 0xc801, 0xc0bc,
	0xc1c4, 0xbc88, 0xb960, 0xbd95, 0xc608, 0xc18c, 0xbb34, 0xc694, 0xac15, 0xd63c, 0xc12c, 0xacc4, 0xb9ac, 0xc218, 0xc5f0, 0xc120,
	0xc138, 0xad50, 0xc99d, 0xcd2c, 0xc9c1, 0xc120, 0xc0b0, 0xb9b0, 0xc728, 0xbc88, 0xb8cc, 0xc791, 0xc900, 0xac04, 0xc694, 0xcc9c,
	0xc608, 0xc218, 0xada4, 0xd68d, 0xcc2c, 0xd76c, 0xac15, 0xc6b4, 0xb2ec, 0xc2b9, 0xd68c, 0xacc4, 0xc0c9, 0xacac, 0xac15, 0xd604,
	0xc870, 0xcd1d, 0xd574, 0xaca9, 0xbcbd, 0xb2e8, 0xc5b5, 0xb18d, 0xc218, 0xc5ed, 0xc624, 0xc218, 0xacc4, 0xbe48, 0xacac, 0xb78c,
	0xbcf5, 0xd6c8, 0xcc2c, 0xc790, 0xbd09, 0xc57d, 0xbb35, 0xb8b0, 0xd790, 0xcc2c, 0xad11, 0xc6b0, 0xc18d, 0xb958, 0xc12c, 0xc804,
	0xad50, 0xb85c, 0xc804, 0xc601, 0xc7ac, 0xc591, 0xc12c, 0xc218, 0xcc2c, 0xb77c, 0xb9ac, 0xb3c5, 0xb78c, 0xb958, 0xb828, 0xba71,
	0xaddc, 0xc6b0, 0xd64d, 0xc8fc, 0xc12c, 0xd758, 0xc57d, 0xae09, 0xd658, 0xad11, 0xae30, 0xc778, 0xc704, 0xc6b4, 0xad49, 0xc21c,
	0xbe44, 0xc0ac, 0xb9dd, 0xb0a9, 0xc784, 0xc885, 0xb95c, 0xbd84, 0xc9c0, 0xbb38, 0xbc29, 0xc800, 0xc9c4, 0xb274, 0xc11c, 0xc120,
	0xac10, 0xc124, 0xbd88, 0xb828, 0xc870, 0xc2e0, 0xc138, 0xc9c1, 0xc885, 0xcd94, 0xbc18, 0xbd88, 0xcd9c, 0xc18c, 0xc5ed, 0xacbd,
	0xd0dc, 0xbc29, 0xc735, 0xacb0, 0xace0, 0xc694, 0xc9c8, 0xd589, 0xd68c, 0xae09, 0xd604, 0xac15, 0xb77d, 0xc808, 0xad50, 0xd1b5,
	0xacbd, 0xcd08, 0xacac, 0xc218, 0xaca9, 0xc218, 0xc870, 0xacc4, 0xc81c, 0xc801, 0xc11c, 0xb989, 0xc601, 0xc18d, 0xae30, 0xbe44,
	0xc791, 0xc0c1, 0xace4, 0xc2b9, 0xc720, 0xba74, 0xc218, 0xbd95, 0xc8fc, 0xb3c4, 0xb958, 0xad8c, 0xc885, 0xd0c4, 0xad00, 0xb85d,
	0xcca0, 0xce58, 0xaca9, 0xc0c1, 0xd568, 0xba74, 0xb78c, 0xc81c, 0xbb18, 0xc9d1, 0xc628, 0xada4, 0xc2dc, 0xc218, 0xb2e8, 0xd3b8,
	0xc120, 0xad6c, 0xcd94, 0xc644, 0xccb4, 0xb8e8, 0xd3b8, 0xbbfc, 0xc5f0, 0xc9c4, 0xbc15, 0xc695, 0xc9c4, 0xbd09, 0xcd5c, 0xd638,
	0xc804, 0xb9ac, 0xc561, 0xacb8, 0xbe48, 0xd45c, 0xb9cc, 0xb958, 0xc601, 0xcd95, 0xbb34, 0xc18c, 0xd790, 0xb8cc, 0xc120, 0xc99d,
	0xac15, 0xacac, 0xc870, 0xd604, 0xaca9, 0xcc2c, 0xbd80, 0xc0ac, 0xd56d, 0xbd80, 0xacb0, 0xbd80, 0xacb0, 0xbc1c, 0xbcd1, 0xd56d,
	0xc870, 0xd56d, 0xc575, 0xc575, 0xacbd, 0xd558, 0xad00, 0xc900, 0xb2f4, 0xc7a5, 0xacc4, 0xc639, 0xc575, 0xb8b0, 0xb2f4, 0xb85c,
	0xad00, 0xb9dd, 0xb9dd, 0xb9dd, 0xb9dd, 0xd55c, 0xb77c, 0xb77c, 0xbd80, 0xbbf8, 0xbc8c, 0xace0, 0xc8fc, 0xc800, 0xbaa8, 0xace0,
	0xbbfc, 0xac15, 0xd30c, 0xad18, 0xc81c, 0xacac, 0xbd80, 0xc0bc, 0xc5c4, 0xc870, 0xc8c4, 0xad18, 0xcca0, 0xc5ed, 0xce58, 0xc554,
	0xbc8c, 0xb0a8, 0xc11c, 0xc2dc, 0xbe44, 0xb9e4, 0xb958, 0xd30c, 0xbc8c, 0xb9ac, 0xc870, 0xc704, 0xd544, 0xacc4, 0xc99d, 0xb3d9,
	0xb958, 0xae30, 0xacac, 0xba71, 0xc870, 0xb77c, 0xbe44, 0xae30, 0xae30, 0xb780, 0xc591, 0xbbf8, 0xac15, 0xb2ec, 0xbbf8, 0xc591,
	0xc720, 0xc720, 0xbd84, 0xd30c, 0xace0, 0xc591, 0xace0, 0xac15, 0xc7a5, 0xace0, 0xb839, 0xc758, 0xc800, 0xc800, 0xc218, 0xac04,
	0xc774, 0xc774, 0xc735, 0xad70, 0xad70, 0xac04, 0xd658, 0xcd5c, 0xc120, 0xc758, 0xb7c9, 0xac15, 0xacb8, 0xc720, 0xac31, 0xac08,
	0xd0c4, 0xc644, 0xd76c, 0xbc88, 0xc804, 0xbd84, 0xc804, 0xb834, 0xb9ac, 0xac31, 0xb204, 0xc559, 0xcc2c, 0xc6b0, 0xacf5, 0xc608,
	0xcda9, 0xc639, 0xbd84, 0xad49, 0xc2dc, 0xc2dc, 0xcde8, 0xbd88, 0xd569, 0xbd84, 0xc775, 0xb78d, 0xc775, 0xd53c, 0xb839, 0xb8cc,
	0xc9c8, 0xad6c, 0xc2b5, 0xd790, 0xc0c1, 0xd761, 0xd761, 0xac70, 0xad50, 0xd670, 0xd718, 0xc18c, 0xc0bd, 0xad49, 0xac15, 0xc801,
	0xcde8, 0xbe44, 0xc6b0, 0xc0bd, 0xc2dc, 0xc800, 0xc804, 0xd6e4, 0xc2dc, 0xd3b8, 0xc885, 0xc644, 0xd718, 0xd6c4, 0xd575, 0xd559,
	0xd55c, 0xace0, 0xd45c, 0xc608, 0xb828, 0xd6c4, 0xace0, 0xb9b0, 0xbd84, 0xad50, 0xace0, 0xbc88, 0xc775, 0xd670, 0xd604, 0xb3c4,
	0xc694, 0xb85c, 0xb85c, 0xace0, 0xbaa8, 0xc790, 0xae30, 0xad6c, 0xad6c, 0xad6c, 0xc9c8, 0xc9c8, 0xc774, 0xc0ac, 0xc5f0, 0xb0b4,
	0xb0b4, 0xb2e8, 0xb8b0, 0xc815, 0xc790, 0xacbd, 0xcd08, 0xbaa8, 0xc6b4, 0xd30c, 0xd53c, 0xce58, 0xc0ac, 0xcc98, 0xac00, 0xac70,
	0xd569, 0xc11c, 0xb85c, 0xb95c, 0xc801, 0xb2f9, 0xc6b0, 0xb8e8, 0xb204, 0xac15, 0xbc29, 0xcc30, 0xb8e8, 0xae30, 0xb85c, 0xd655,
	0xc6b0, 0xb9c8, 0xd68c, 0xc774, 0xcca9, 0xc815, 0xc57c, 0xd0d1, 0xc6a9, 0xae08, 0xc6b4, 0xce58, 0xb2f4, 0xd0d0, 0xad49, 0xacbd,
	0xc9c1, 0xbd84, 0xc12d, 0xb2f4, 0xc9c4, 0xcca0, 0xb839, 0xc815, 0xc720, 0xc648, 0xb8cc, 0xb871, 0xc9c1, 0xb155, 0xc870, 0xc774,
	0xc54c, 0xc811, 0xad04, 0xc11c, 0xb828, 0xd638, 0xc131, 0xb835, 0xbe59, 0xc815, 0xcde8, 0xbe44, 0xc800, 0xad35, 0xbb38, 0xc11c,
	0xbcd1, 0xcd1d, 0xc815, 0xc544, 0xc815, 0xad6c, 0xcd1d, 0xaddc, 0xb828, 0xc678, 0xcd1d, 0xb828, 0xc639, 0xadc0, 0xb828, 0xb828,
	0xcd1d, 0xc624, 0xc131, 0xc6a9, 0xccad, 0xc678, 0xc12d, 0xc9c1, 0xb2f4, 0xb155, 0xc808, 0xc801, 0xccad, 0xccad, 0xb871, 0xc728,
	0xc0ac, 0xc870, 0xc0ac, 0xc219, 0xc774, 0xc219, 0xc0ac, 0xc870, 0xc870, 0xc721, 0xc5b5, 0xb975, 0xae30, 0xad6c, 0xae0d, 0xc870,
	0xd758, 0xc801, 0xd658, 0xd669, 0xc774, 0xc778, 0xcd08, 0xc5ec, 0xc8fc, 0xc5f0, 0xb450, 0xd56d, 0xc735, 0xac04, 0xcc28, 0xc624,
	0xc7a5, 0xace0, 0xc9c0, 0xae08, 0xbd80, 0xbe44, 0xbd84, 0xbc30, 0xbc29, 0xacac, 0xbc29, 0xc21c, 0xc6b0, 0xb20c, 0xd56d, 0xae0d,
	0xc5f0, 0xad49, 0xc721, 0xbb38, 0xd6a8, 0xae30, 0xbe44, 0xd73c, 0xd790, 0xd790, 0xd3d0, 0xae0d, 0xc815, 0xd0dc, 0xc2e0, 0xc885,
	0xcc3d, 0xd611, 0xc2e0, 0xc704, 0xc8fc, 0xc9c8, 0xb2e8, 0xd544, 0xbc1c, 0xbc15, 0xad6c, 0xc810, 0xbc30, 0xace0, 0xd0dc, 0xc790,
	0xad74, 0xc9c0, 0xb2c8, 0xd3c9, 0xc790, 0xbd80, 0xbc18, 0xc9c4, 0xd604, 0xc870, 0xbc30, 0xac11, 0xc131, 0xc9c0, 0xd3ec, 0xbb34,
	0xac70, 0xd638, 0xac00, 0xc774, 0xc724, 0xc11c, 0xc559, 0xb871, 0xb3d9, 0xce74, 0xb824, 0xacbd, 0xb178, 0xc5f0, 0xbc29, 0xace0,
	0xc774, 0xad11, 0xd574, 0xac01, 0xb3d9, 0xce58, 0xd6a8, 0xd749, 0xd749, 0xc774, 0xc54c, 0xd589, 0xbcc0, 0xb2a5, 0xc790, 0xaddc,
	0xc2b9, 0xc870, 0xc9c0, 0xcde8, 0xb9e4, 0xd611, 0xcde8, 0xd611, 0xb9e5, 0xb9e5, 0xcc99, 0xd611, 0xb144, 0xd68c, 0xc0b4, 0xc7a5,
	0xc81c, 0xb1cc, 0xbbf8, 0xb18d, 0xb828, 0xb9cc, 0xbc1c, 0xbb38, 0xc644, 0xad6c, 0xac01, 0xacbd, 0xc720, 0xd615, 0xc88c, 0xb82c,
	0xc804, 0xc815, 0xb9e4, 0xc21c, 0xc2e0, 0xd611, 0xd2b9, 0xcd5c, 0xcd09, 0xc218, 0xd754, 0xd0c8, 0xd3ec, 0xc815, 0xd1f4, 0xd3ec,
	0xb450, 0xd0c8, 0xb1e8, 0xb1cc, 0xbe44, 0xc624, 0xb77c, 0xb9ac, 0xac80, 0xcc3d, 0xc218, 0xcca9, 0xb7c9, 0xc218, 0xbe44, 0xd45c,
	0xb95c, 0xbcc0, 0xacfc, 0xadc0, 0xc218, 0xb2f4, 0xc804, 0xb1cc, 0xc815, 0xac1c, 0xc11d, 0xc561, 0xc5c4, 0xc784, 0xc2e0, 0xcca0,
	0xbd80, 0xbd80, 0xac70, 0xbe44, 0xac15, 0xc644, 0xb3d9, 0xbe44, 0xad35, 0xc885, 0xc815, 0xc545, 0xb9e4, 0xbd80, 0xc804, 0xc9c8,
	0xc8fc, 0xb77c, 0xc6b0, 0xc81c, 0xc554, 0xc131, 0xb1cc, 0xc218, 0xcc9c, 0xb0a8, 0xc6b4, 0xc885, 0xc720, 0xc545, 0xc2dc, 0xb3cc,
	0xc694, 0xac74, 0xc678, 0xac01, 0xc720, 0xac00, 0xb2e8, 0xd53d, 0xc7a5, 0xbcf5, 0xc120, 0xb2c8, 0xba74, 0xc62c, 0xb4f1, 0xd1f4,
	0xbc29, 0xacb8, 0xb824, 0xc62c, 0xc218, 0xb2f9, 0xc18c, 0xcd94, 0xaca9, 0xc775, 0xbc15, 0xb8cc, 0xcc99, 0xbe44, 0xd574, 0xace0,
	0xb824, 0xbe48, 0xad6c, 0xc7a5, 0xb85d, 0xad35, 0xbc29, 0xcd5c, 0xd45c, 0xac15, 0xbd80, 0xb2f9, 0xb9c9, 0xc2ac, 0xc804, 0xb960,
	0xad50, 0xc789, 0xb8e8, 0xc9c8, 0xc124, 0xb780, 0xb828, 0xb3d9, 0xd33d, 0xb2c8, 0xc2dc, 0xb8cc, 0xcde8, 0xad34, 0xd6a8, 0xb4f1,
	0xbc88, 0xc9c1, 0xcd08, 0xc120, 0xbb34, 0xcdcc, 0xc724, 0xd5a5, 0xc218, 0xbd84, 0xc751, 0xc804, 0xacfc, 0xb2f4, 0xd68c, 0xb18d,
	0xb454, 0xb834, 0xbe44, 0xc639, 0xac39, 0xcd09, 0xc5b5, 0xc804, 0xb78d, 0xac80, 0xc870, 0xb454, 0xace0, 0xc81c, 0xcde8, 0xbe48,
	0xd6c8, 0xb178, 0xd655, 0xc7a5, 0xd604, 0xd45c, 0xd765, 0xace4, 0xb78d, 0xc5f0, 0xb824, 0xd655, 0xc7a0, 0xb77c, 0xad6c, 0xc7a5,
	0xb828, 0xb2c8, 0xc7a0, 0xc2e0, 0xd604, 0xc640, 0xad11, 0xc7a5, 0xb9bc, 0xad11, 0xc790, 0xad50, 0xc5bc, 0xcde8, 0xae30, 0xace0,
	0xcde8, 0xba74, 0xc5bc, 0xc9c0, 0xce58, 0xaca9, 0xcc9c, 0xc9c8, 0xc9c4, 0xc218, 0xb300, 0xc9c4, 0xad6c, 0xd568, 0xc720, 0xc0bd,
	0xc694, 0xc5ec, 0xc6a9, 0xc11d, 0xc11d, 0xad6c, 0xc5ec, 0xc5ec, 0xd765, 0xac70, 0xad6c, 0xd754, 0xc124, 0xc0ac, 0xc0ac, 0xad6c,
	0xc9c0, 0xb2f4, 0xc11c, 0xc9c0, 0xcca8, 0xb2f4, 0xd3ec, 0xd3ec, 0xad00, 0xd654, 0xcca8, 0xcc9c, 0xc21c, 0xd560, 0xbb34, 0xc8fc,
	0xb3c4, 0xac15, 0xc0b0, 0xcc28, 0xbc94, 0xd30c, 0xd0dc, 0xbc94, 0xd310, 0xc120, 0xd56d, 0xbc29, 0xbc18, 0xbe44, 0xd638, 0xc911,
	0xd568, 0xcc3d, 0xb839, 0xcd95, 0xcc45, 0xd0c0, 0xbc15, 0xd604, 0xac00, 0xc120, 0xac11, 0xb85c, 0xacf5, 0xbc29, 0xc11c, 0xacfc,
	0xbd80, 0xc870, 0xbd09, 0xb9ac, 0xc18c, 0xc5ec, 0xb791, 0xc815, 0xb958, 0xbbf8, 0xbc15, 0xb9f9, 0xb150, 0xac70, 0xd669, 0xc218,
	0xc885, 0xd3b8, 0xbaa8, 0xc811, 0xb3c4, 0xbc29, 0xcc28, 0xc775, 0xc18c, 0xcc3d, 0xc870, 0xb8e8, 0xb300, 0xc124, 0xc694, 0xb3d9,
	0xb4f1, 0xb2f9, 0xc7a5, 0xb85c, 0xc758, 0xc9d1, 0xd568, 0xd655, 0xbabd, 0xc81c, 0xb85c, 0xb85c, 0xcc38, 0xc30d, 0xac04, 0xb7c9,
	0xac04, 0xac04, 0xc0c9, 0xc5fc, 0xbd88, 0xbcd1, 0xc5fc, 0xc5fc, 0xcd08, 0xcd08, 0xc608, 0xb975, 0xc815, 0xad6c, 0xc560, 0xc789,
	0xcd08, 0xaddc, 0xc808, 0xbd09, 0xd658, 0xc775, 0xcc28, 0xba74, 0xbbf8, 0xac04, 0xcc9c, 0xc6b0, 0xc6b0, 0xc791, 0xad81, 0xd1a0,
	0xd558, 0xae30, 0xb9dd, 0xc790, 0xd6fc, 0xc720, 0xce58, 0xd5a5, 0xbe44, 0xbd80, 0xb454, 0xc21c, 0xbb34, 0xc9c0, 0xac78, 0xc0bc,
	0xbb38, 0xac80, 0xc778, 0xbd80, 0xaddc, 0xac1c, 0xd638, 0xc11c, 0xae09, 0xae08, 0xae30, 0xc6d0, 0xbd84, 0xd30c, 0xc608, 0xc2ec,
	0xae30, 0xd654, 0xd654, 0xbc29, 0xd640, 0xacb0, 0xad6c, 0xc9c0, 0xc6b4, 0xadfc, 0xc694, 0xcd94, 0xbaa8, 0xc544, 0xbe44, 0xc789,
	0xd56d, 0xc885, 0xc74c, 0xc6b0, 0xbcc0, 0xc608, 0xc808, 0xc704, 0xb825, 0xd544, 0xc561, 0xd604, 0xc7a5, 0xcc3d, 0xc800, 0xc18c,
	0xc81c, 0xc6d0, 0xc5fc, 0xb839, 0xd0dc, 0xcd08, 0xc801, 0xbb18, 0xacbd, 0xb9bd, 0xc6a9, 0xac00, 0xbaa9, 0xd328, 0xd3ec, 0xad6c,
	0xbbfc, 0xc774, 0xc774, 0xac70, 0xbe44, 0xc57d, 0xace0, 0xc800, 0xb2c8, 0xbc31, 0xbcd1, 0xc810, 0xc218, 0xc694, 0xc120, 0xbd84,
	0xd64d, 0xc601, 0xc791, 0xb3d9, 0xc800, 0xc9c8, 0xb0a0, 0xac10, 0xd638, 0xd3c9, 0xb9e4, 0xbd80, 0xc0dd, 0xace0, 0xd544, 0xbbf8,
	0xbd88, 0xc904, 0xbb34, 0xbc94, 0xac00, 0xbaa8, 0xbb18, 0xbc1c, 0xc790, 0xb9d0, 0xc790, 0xc800, 0xce58, 0xadf9, 0xacbd, 0xb871,
	0xcd1d, 0xc870, 0xc6d0, 0xd608, 0xd1a0, 0xacbd, 0xac01, 0xba85, 0xb824, 0xc735, 0xc778, 0xac04, 0xcc9c, 0xcc44, 0xc2e0, 0xc728,
	0xd734, 0xc790, 0xb82c, 0xc624, 0xb2e4, 0xaddc, 0xcc45, 0xcda9, 0xc790, 0xad6c, 0xad11, 0xb9dd, 0xce58, 0xad50, 0xcd08, 0xbcf5,
	0xc720, 0xc218, 0xc790, 0xac15, 0xd68c, 0xc778, 0xb2e4, 0xd328, 0xc6a9, 0xc5ec, 0xcda9, 0xb9dd, 0xb3d9, 0xc911, 0xacac, 0xcd95,
	0xc21c, 0xd658, 0xacfc, 0xc804, 0xd574, 0xb2f5, 0xd615, 0xd589, 0xcc9c, 0xcd08, 0xd615, 0xc774, 0xc548, 0xad50, 0xce58, 0xc784,
	0xcc9c, 0xc774, 0xd669, 0xbcd1, 0xb824, 0xadfc, 0xbc30, 0xc220, 0xc7a5, 0xb2ec, 0xd611, 0xc694, 0xd544, 0xc989, 0xad50, 0xd68c,
	0xc81c, 0xd0d5, 0xc6b0, 0xc1a1, 0xd6c8, 0xd615, 0xb77d, 0xd615, 0xb2f4, 0xc2e0, 0xc190, 0xc74c, 0xb9e4, 0xd64d, 0xc870, 0xc57d,
	0xb450, 0xbbf8, 0xb9ac, 0xb450, 0xbd80, 0xc778, 0xc74c, 0xd558, 0xbc1c, 0xcd08, 0xc724, 0xc801, 0xb3c4, 0xc720, 0xc218, 0xc131,
	0xc2e0, 0xbb34, 0xbcc4, 0xd76c, 0xacbd, 0xb9ac, 0xbcf4, 0xc870, 0xbab0, 0xb9ac, 0xc7a5, 0xc791, 0xd0c8, 0xcd9c, 0xc0ac, 0xc0ac,
	0xce68, 0xbd09, 0xac70, 0xb9e4, 0xb9f9, 0xd589, 0xacbd, 0xcc28, 0xc2e0, 0xad70, 0xc5f0, 0xc815, 0xc870, 0xc88c, 0xc644, 0xd568,
	0xc720, 0xcc29, 0xd611, 0xb9dd, 0xc219, 0xb274, 0xc18c, 0xd604, 0xb791, 0xbd80, 0xc544, 0xb9c9, 0xba74, 0xc989, 0xb0a8, 0xbaa9,
	0xac10, 0xb798, 0xb828, 0xc2dc, 0xc640, 0xd1a0, 0xb834, 0xd68d, 0xc720, 0xc625, 0xc575, 0xb2a6, 0xc21c, 0xb9dd, 0xb9dd, 0xc790,
	0xc6b8, 0xccad, 0xc801, 0xac70, 0xb3d9, 0xad00, 0xcd94, 0xace0, 0xb78d, 0xb85d, 0xad6d, 0xbbf8, 0xade0, 0xc784, 0xace4, 0xd558,
	0xbcf5, 0xce58, 0xace0, 0xacfc, 0xbcf5, 0xb860, 0xcc3d, 0xc8fc, 0xc22d, 0xc218, 0xc794, 0xbb38, 0xcc44, 0xbc1c, 0xb9ac, 0xb3c4,
	0xd30c, 0xd568, 0xd3ec, 0xae34, 0xad8c, 0xc11d, 0xadfc, 0xc800, 0xc811, 0xbcf4, 0xd0d5, 0xadfc, 0xcd08, 0xd0dc, 0xacbd, 0xd654,
	0xace0, 0xb989, 0xbe44, 0xae08, 0xc554, 0xb9dd, 0xbd09, 0xcd94, 0xc5b4, 0xc800, 0xacac, 0xb984, 0xb2f4, 0xc219, 0xcca8, 0xb3c4,
	0xd638, 0xae30, 0xd654, 0xcdcc, 0xb3c4, 0xcd98, 0xbe44, 0xc7a5, 0xd658, 0xbe44, 0xb798, 0xcc98, 0xb9f9, 0xd3c9, 0xc704, 0xb2f4,
	0xc0bd, 0xcd94, 0xc5b8, 0xc758, 0xcd08, 0xc81c, 0xc644, 0xcc45, 0xb0b4, 0xce68, 0xd0c1, 0xad6c, 0xcca9, 0xb77c, 0xbe44, 0xd658,
	0xbd95, 0xbc15, 0xd3ec, 0xc815, 0xd615, 0xc601, 0xc601, 0xc18c, 0xc0b4, 0xcd94, 0xacfc, 0xd5a5, 0xb9cc, 0xc6b0, 0xc720, 0xbd80,
	0xb828, 0xd6e4, 0xd6e4, 0xb0a8, 0xc989, 0xc640, 0xcd98, 0xc18c, 0xc720, 0xd3b8, 0xbaa8, 0xc554, 0xc545, 0xb77d, 0xc601, 0xd65c,
	0xad04, 0xac15, 0xba74, 0xc801, 0xc8fc, 0xc800, 0xbcf4, 0xc720, 0xc2dc, 0xc5fd, 0xc554, 0xad6c, 0xac04, 0xbcf5, 0xb960, 0xc804,
	0xbd84, 0xd48d, 0xd64d, 0xd64d, 0xd6c4, 0xc5f0, 0xb3cc, 0xc800, 0xce58, 0xc0c1, 0xc2ec, 0xac08, 0xacc4, 0xacbd, 0xbbf8, 0xd669,
	0xc0bc, 0xd3ec, 0xac1c, 0xb3d9, 0xc870, 0xc804, 0xc704, 0xbc1c, 0xc678, 0xd30c, 0xacc4, 0xd638, 0xc7a5, 0xac00, 0xb2e8, 0xc57d,
	0xc900, 0xcd1d, 0xcc9c, 0xc704, 0xce68, 0xaddc, 0xc815, 0xd6c8, 0xc0ac, 0xc2dc, 0xc999, 0xb78c, 0xc885, 0xc694, 0xc6d0, 0xbbf8,
	0xc628, 0xc220, 0xccb4, 0xc804, 0xad00, 0xc5fc, 0xacf5, 0xcc9c, 0xac1c, 0xad34, 0xacf3, 0xc7a5, 0xb8e8, 0xc704, 0xd30c, 0xc720,
	0xc218, 0xc740, 0xc0ac, 0xc21c, 0xc2dc, 0xc628, 0xc9c4, 0xb791, 0xb098, 0xbabd, 0xb825, 0xacb0, 0xc0b0, 0xc6d0, 0xb9ac, 0xad6c,
	0xc2dd, 0xbc29, 0xc81c, 0xc11c, 0xb3c4, 0xb958, 0xd655, 0xc810, 0xcc9c, 0xc870, 0xbc15, 0xcc28, 0xc6d0, 0xcd94, 0xc721, 0xad34,
	0xbc18, 0xd3ec, 0xd3ec, 0xb0a9, 0xc0ad, 0xd61c, 0xbd84, 0xc6b4, 0xc99d, 0xacb8, 0xc9c8, 0xc57d, 0xcc3d, 0xc740, 0xbbf8, 0xd638,
	0xc190, 0xc9c4, 0xba85, 0xc218, 0xcd95, 0xb958, 0xc11d, 0xace8, 0xb791, 0xc6a9, 0xc639, 0xac1c, 0xc88c, 0xc2dc, 0xb2f9, 0xb77c,
	0xc695, 0xc0ac, 0xd55c, 0xbc30, 0xc694, 0xacc4, 0xbe44, 0xc885, 0xace4, 0xc88c, 0xc218, 0xcc45, 0xbc30, 0xb78c, 0xb3c4, 0xacc4,
	0xb9ac, 0xc0bc, 0xb791, 0xc5ec, 0xb989, 0xd615, 0xb9e5, 0xc870, 0xc218, 0xbaa8, 0xd1b5, 0xcd95, 0xbd09, 0xc554, 0xb828, 0xcd1d,
	0xc0ac, 0xd3c9, 0xad6c, 0xadfc, 0xc21c, 0xcca9, 0xc720, 0xd1f4, 0xc870, 0xc5b4, 0xc608, 0xc9d1, 0xb8cc, 0xd544, 0xb85c, 0xc219,
	0xbd80, 0xc7a5, 0xb958, 0xac15, 0xb9cc, 0xc5f0, 0xb989, 0xae30, 0xd45c, 0xace4, 0xd55c, 0xc801, 0xc18d, 0xb85d, 0xc124, 0xc0c1,
	0xc801, 0xba78, 0xd6c8, 0xb9cc, 0xbcf5, 0xccb4, 0xcc28, 0xc790, 0xc0bc, 0xc120, 0xc6b8, 0xace1, 0xc624, 0xbbf8, 0xb8e8, 0xc8fc,
	0xc885, 0xcc44, 0xd30c, 0xc7a5, 0xbc00, 0xcd1d, 0xc870, 0xc138, 0xad8c, 0xc778, 0xc810, 0xc5b8, 0xc18c, 0xc74c, 0xada4, 0xc9c4,
	0xd638, 0xc0b4, 0xad6c, 0xcc9c, 0xb9c8, 0xc7a5, 0xcc45, 0xc7a5, 0xb450, 0xb834, 0xb9b0, 0xad6c, 0xc560, 0xd3d0, 0xb9ac, 0xc704,
	0xadf9, 0xb2f4, 0xc2b9, 0xbc88, 0xb9f9, 0xc6b0, 0xcc9c, 0xc804, 0xc2ec, 0xcd08, 0xc608, 0xc608, 0xb958, 0xc720, 0xad50, 0xc800,
	0xd654, 0xac04, 0xb9e4, 0xc6b4, 0xbcf4, 0xc720, 0xac70, 0xb85c, 0xc694, 0xd61c, 0xc545, 0xc81c, 0xbe44, 0xc808, 0xccb4, 0xd3d0,
	0xc5ec, 0xbd84, 0xad34, 0xc21c, 0xc720, 0xc544, 0xc218, 0xbcf5, 0xad90, 0xd0d5, 0xbb34, 0xb3d9, 0xc0ac, 0xc18c, 0xc11d, 0xb96d,
	0xc628, 0xcd08, 0xae30, 0xac04, 0xc628, 0xc190, 0xb839, 0xc5ec, 0xd558, 0xc639, 0xc999, 0xd64d, 0xc0ac, 0xb18d, 0xb8b0, 0xd6e4,
	0xc628, 0xc6b1, 0xaca9, 0xd638, 0xbc15, 0xd638, 0xc560, 0xbbf8, 0xd68c, 0xc608, 0xacc4, 0xc790, 0xd5a5, 0xc644, 0xba78, 0xc758,
	0xb989, 0xac15, 0xcc2c, 0xc0bc, 0xc7a5, 0xb834, 0xacfc, 0xc6d0, 0xb2ec, 0xce58, 0xd0d5, 0xc124, 0xbcbd, 0xb2f4, 0xc190, 0xb834,
	0xbc88, 0xc815, 0xd574, 0xace0, 0xd574, 0xcd09, 0xcc9c, 0xace0, 0xd6d9, 0xc0b4, 0xc2e0, 0xd6c8, 0xc57d, 0xbe44, 0xc218, 0xc11c,
	0xd6c8, 0xb300, 0xbe48, 0xc6d0, 0xb155, 0xc8fc, 0xb9e4, 0xc720, 0xd45c, 0xb300, 0xc81c, 0xc870, 0xc9c4, 0xc9c4, 0xc774, 0xc758,
	0xd615, 0xace0, 0xcd1d, 0xd638, 0xae30, 0xbc8c, 0xac74, 0xc11c, 0xaddc, 0xc790, 0xbcc0, 0xc870, 0xbc00, 0xb78c, 0xc2e0, 0xc7a5,
	0xbb18, 0xacbd, 0xac78, 0xc120, 0xb8cc, 0xc6b0, 0xc0b0, 0xc18d, 0xb824, 0xc758, 0xc18d, 0xc0ac, 0xb824, 0xc608, 0xc57d, 0xb958,
	0xd6a8, 0xc801, 0xce58, 0xd53c, 0xb4f1, 0xc57d, 0xb9c8, 0xd658, 0xd45c, 0xbc88, 0xc218, 0xb2f4, 0xd1f4, 0xad81, 0xcd08, 0xc704,
	0xb958, 0xd68c, 0xcd94, 0xace0, 0xc628, 0xbcf4, 0xb825, 0xc800, 0xc800, 0xc560, 0xb9b0, 0xc870, 0xd6e4, 0xce5c, 0xb8b0, 0xacfd,
	0xd0c1, 0xc624, 0xc608, 0xc608, 0xae30, 0xd615, 0xb85c, 0xc18c, 0xd1f4, 0xb9dd, 0xc628, 0xbe48, 0xc5b4, 0xd6c8, 0xae30, 0xacbd,
	0xd6e4, 0xb9c8, 0xad6c, 0xc5b4, 0xb3d9, 0xbd09, 0xc5bc, 0xbcbd, 0xc591, 0xc608, 0xc120, 0xc721, 0xad6d, 0xb834, 0xb834, 0xc740,
	0xc7a5, 0xc601, 0xb871, 0xd22c, 0xc704, 0xc57d, 0xb839, 0xac70, 0xc694, 0xbc88, 0xbbf8, 0xb78c, 0xadc0, 0xb780, 0xacc4, 0xd0d5,
	0xb9cc, 0xb958, 0xb958, 0xd734, 0xd48d, 0xc9c1, 0xc704, 0xae30, 0xc7a0, 0xd68c, 0xb9ac, 0xacc4, 0xbbf8, 0xb958, 0xad34, 0xb77c,
	0xc81c, 0xae30, 0xb85c, 0xcca8, 0xc0b4, 0xb4f1, 0xb958, 0xad8c, 0xd6a8, 0xc5ed, 0xb780, 0xbb38, 0xbcc4, 0xd638, 0xd638, 0xb85c,
	0xd559, 0xd544, 0xc0ac, 0xd6a8, 0xac74, 0xcc98, 0xd638, 0xd5c8, 0xcc28, 0xbcf5, 0xd5c8, 0xd5c8, 0xb85c, 0xd638, 0xc6b0, 0xd638,
	0xad50, 0xac70, 0xad35, 0xd3ec, 0xd604, 0xc794, 0xc794, 0xd734, 0xbc18, 0xd601, 0xc219, 0xd6fc, 0xaddc, 0xb3c4, 0xae30, 0xaddc,
	0xc815, 0xc2ac, 0xbcf5, 0xad74, 0xcc45, 0xc0ac, 0xc6b0, 0xac04, 0xc790, 0xd64d, 0xd6fc, 0xb9f9, 0xd758, 0xc218, 0xd558, 0xcc44,
	0xc2dd, 0xc758, 0xb9c8, 0xd5a5, 0xbc29, 0xc561, 0xd30c, 0xcc99, 0xacac, 0xbb38, 0xbb38, 0xc608, 0xbc29, 0xbe44, 0xc6d4, 0xc6d4,
	0xade0, 0xae30, 0xb3d9, 0xc778, 0xae30, 0xcc9c, 0xc6d0, 0xacb0, 0xd68c, 0xae08, 0xae30, 0xc911, 0xc544, 0xc790, 0xbaa9, 0xc655,
	0xbd84, 0xbd84, 0xd56d, 0xacf5, 0xc870, 0xbcf4, 0xc5fc, 0xac1c, 0xbd80, 0xce58, 0xb450, 0xd3ec, 0xd604, 0xb2c8, 0xd2b9, 0xad6c,
	0xc720, 0xcc45, 0xd3c9, 0xc9c0, 0xc720, 0xac00, 0xac10, 0xac70, 0xb825, 0xbd80, 0xc5fc, 0xcc30, 0xad6c, 0xbe44, 0xd30c, 0xd604,
	0xc8fc, 0xc870, 0xbcc4, 0xbcd1, 0xace0, 0xc810, 0xc800, 0xc0ac, 0xcca0, 0xb839, 0xace0, 0xb2e8, 0xace0, 0xd615, 0xb824, 0xc815,
	0xace1, 0xbaa8, 0xaca9, 0xc790, 0xd68c, 0xd68c, 0xbc29, 0xbd80, 0xc591, 0xc640, 0xb82c, 0xc8fc, 0xc774, 0xd55c, 0xd65c, 0xad50,
	0xb824, 0xc775, 0xbcd1, 0xae38, 0xd569, 0xc124, 0xc774, 0xb9dd, 0xb9e5, 0xacf5, 0xacb0, 0xada4, 0xacf5, 0xc9c8, 0xb9cc, 0xb178,
	0xce69, 0xd611, 0xc694, 0xc0ac, 0xc81c, 0xd615, 0xb82c, 0xad6c, 0xc18c, 0xc6a9, 0xd611, 0xc138, 0xcc28, 0xd328, 0xc544, 0xd568,
	0xcd09, 0xc120, 0xbd09, 0xc2e0, 0xc9c4, 0xd3ec, 0xd604, 0xcca0, 0xc624, 0xbd80, 0xb9ac, 0xb791, 0xd3d0, 0xc11c, 0xc5f0, 0xc720,
	0xac81, 0xb2e8, 0xc5f0, 0xc815, 0xc804, 0xd0dc, 0xd68c, 0xc640, 0xc9c0, 0xc1a1, 0xbe44, 0xac70, 0xbc00, 0xae30, 0xae30, 0xc721,
	0xad70, 0xc0ac, 0xb9f9, 0xac15, 0xc0ac, 0xc11d, 0xb95c, 0xb824, 0xc811, 0xc870, 0xb3c4, 0xace4, 0xd568, 0xd568, 0xc5ed, 0xbc29,
	0xbe44, 0xbe44, 0xc704, 0xc724, 0xcc99, 0xc5f0, 0xc194, 0xad8c, 0xacac, 0xc608, 0xc608, 0xccad, 0xc720, 0xb7c9, 0xacfc, 0xc6d0,
	0xb3d9, 0xc545, 0xd310, 0xccb4, 0xb9dd, 0xc7a0, 0xc591, 0xc2b9, 0xad35, 0xc120, 0xc815, 0xb78d, 0xacfc, 0xc989, 0xac08, 0xc815,
	0xbaa8, 0xc11c, 0xba74, 0xc720, 0xac1c, 0xc2dd, 0xd6e4, 0xd669, 0xc5b8, 0xd3b8, 0xc720, 0xc704, 0xbd80, 0xc5f0, 0xbbf8, 0xc704,
	0xbcf5, 0xc724, 0xd608, 0xc720, 0xc720, 0xbaa8, 0xd558, 0xc601, 0xc2ac, 0xc911, 0xd0d5, 0xc800, 0xc885, 0xc81c, 0xbcf5, 0xc6d0,
	0xaddc, 0xb9f9, 0xb784, 0xb3c5, 0xd638, 0xcd94, 0xc811, 0xb825, 0xc640, 0xc6b4, 0xad6c, 0xb0a8, 0xb8e8, 0xcd98, 0xc601, 0xc2b9,
	0xc7a5, 0xd1f4, 0xb791, 0xbc29, 0xc0ac, 0xc2e4, 0xc790, 0xd61c, 0xc6d0, 0xc639, 0xb834, 0xc218, 0xbc18, 0xc735, 0xc735, 0xc9c8,
	0xc624, 0xd6c4, 0xd55c, 0xc9c4, 0xc774, 0xbe44, 0xd65c, 0xb2f9, 0xc758, 0xb450, 0xb0b4, 0xd560, 0xace1, 0xd68c, 0xb9c8, 0xba85,
	0xc758, 0xbb38, 0xd615, 0xb4f1, 0xc720, 0xcc3d, 0xc18c, 0xae30, 0xb9cc, 0xc870, 0xc0c1, 0xc11d, 0xc870, 0xb9ac, 0xccb4, 0xc624,
	0xb85d, 0xc704, 0xc9c8, 0xb2f9, 0xc9c4, 0xd45c, 0xac70, 0xbe44, 0xc720, 0xc810, 0xb77c, 0xb8e8, 0xadfc, 0xc885, 0xc778, 0xc7a5,
	0xc194, 0xbb38, 0xad50, 0xb9cc, 0xce69, 0xc790, 0xb9c8, 0xb9c8, 0xad35, 0xb8cc, 0xbaa8, 0xc2e4, 0xcd1d, 0xb9ac, 0xb9cc, 0xc18c,
	0xc0c1, 0xc7a5, 0xb9dd, 0xc0c1, 0xbb35, 0xc8fc, 0xc0ac, 0xcd94, 0xd2b9, 0xc9c1, 0xd33d, 0xd33d, 0xad50, 0xac70, 0xbcc4, 0xb8cc,
	0xbc18, 0xc704, 0xd76c, 0xae30, 0xc804, 0xd669, 0xbe44, 0xb85c, 0xad90, 0xad90, 0xd61c, 0xb2f4, 0xc120, 0xcd08, 0xc120, 0xc694,
	0xc18c, 0xbaa8, 0xcda9, 0xc2ec, 0xc0ac, 0xc8fc, 0xc815, 0xb2f9, 0xb824, 0xd574, 0xc120, 0xc758, 0xacbd, 0xb2ec, 0xc12c, 0xacc4,
	0xc790, 0xd5a5, 0xc12d, 0xb77c, 0xae08, 0xc2b9, 0xcc44, 0xb824, 0xc801, 0xd604, 0xb834, 0xcd09, 0xd0dd, 0xac08, 0xb9dd, 0xd574,
	0xc81c, 0xc601, 0xacac, 0xbabd, 0xd638, 0xc5f0, 0xd655, 0xd0c1, 0xc808, 0xbe48, 0xd559, 0xba78, 0xbc88, 0xb8b0, 0xc808, 0xb78d,
	0xbc00, 0xb824, 0xc900, 0xb824, 0xcd94, 0xc5bc, 0xb85c, 0xb450, 0xc18c, 0xc800, 0xb871, 0xb9ac, 0xb8e1, 0xbd09, 0xc5f4, 0xbe44,
	0xc0c1, 0xace0, 0xacac, 0xc601, 0xc11c, 0xd734, 0xc7a0, 0xad6c, 0xad8c, 0xb450, 0xc7a0, 0xb9cc, 0xad6c, 0xc808, 0xcd09, 0xcc30,
	0xd608, 0xd669, 0xb275, 0xbc30, 0xb275, 0xd754, 0xc911, 0xb9e5, 0xc774, 0xac1d, 0xba78, 0xd601, 0xd589, 0xc5f0, 0xac04, 0xc6d0,
	0xac70, 0xb839, 0xd604, 0xc220, 0xd568, 0xb3d9, 0xd56d, 0xac00, 0xd568, 0xc544, 0xd638, 0xc704, 0xb3c4, 0xcda9, 0xc704, 0xb3c4,
	0xc21c, 0xd615, 0xad6c, 0xc758, 0xc758, 0xbcf4, 0xac04, 0xc6b0, 0xd45c, 0xcc28, 0xc774, 0xc0bc, 0xce5c, 0xbd80, 0xace4, 0xbd84,
	0xc1e0, 0xac81, 0xb0a9, 0xc885, 0xb2f4, 0xc77c, 0xc911, 0xcda9, 0xac1c, 0xae30, 0xc0ac, 0xc5fc, 0xc9c0, 0xc784, 0xae08, 0xae08,
	0xade0, 0xc6d0, 0xba8c, 0xc81c, 0xc624, 0xb1e8, 0xc704, 0xb2e8, 0xac00, 0xd0c0, 0xb839, 0xb300, 0xd3ec, 0xd3ec, 0xc694, 0xc88c,
	0xd544, 0xc18c, 0xb2e8, 0xc800, 0xd558, 0xc220, 0xc218, 0xc9c4, 0xc774, 0xd30c, 0xbc1c, 0xc800, 0xb9d0, 0xbd80, 0xace4, 0xc9c8,
	0xc9c8, 0xc5fc, 0xbc88, 0xc608, 0xbb34, 0xd0c1, 0xad74, 0xad6c, 0xd604, 0xc810, 0xac70, 0xd53c, 0xc721, 0xc2b5, 0xce58, 0xbc1c,
	0xbb34, 0xbcf5, 0xc774, 0xce58, 0xace0, 0xc784, 0xac15, 0xac81, 0xc874, 0xb9d0, 0xacb0, 0xc774, 0xac01, 0xb140, 0xc8fc, 0xaddc,
	0xc778, 0xc7ac, 0xb82c, 0xb871, 0xd589, 0xc7a5, 0xb2f9, 0xd608, 0xace4, 0xac04, 0xb1e8, 0xc218, 0xacb9, 0xace4, 0xc815, 0xb9ac,
	0xacac, 0xc2e0, 0xbd80, 0xadf9, 0xc608, 0xc720, 0xc9c4, 0xb958, 0xad6c, 0xad70, 0xc81c, 0xc74d, 0xbcf4, 0xc7a5, 0xc138, 0xc0ac,
	0xad70, 0xb9ac, 0xb828, 0xcca8, 0xace0, 0xac04, 0xd3ec, 0xcca8, 0xbe44, 0xace4, 0xb3c4, 0xc5f0, 0xb989, 0xce58, 0xcc3d, 0xc8fc,
	0xcca0, 0xd45c, 0xb7c9, 0xc0c1, 0xbc30, 0xbc30, 0xbe44, 0xad8c, 0xb77c, 0xacfc, 0xc554, 0xb3c5, 0xc11d, 0xc81c, 0xac70, 0xae30,
	0xae30, 0xcc99, 0xad18, 0xae0d, 0xcc98, 0xccb4, 0xc81c, 0xbcf5, 0xc911, 0xc124, 0xd3b8, 0xc811, 0xace4, 0xb2e8, 0xc720, 0xc720,
	0xac08, 0xc6d0, 0xd3ec, 0xbcf4, 0xbd80, 0xc720, 0xb2e8, 0xc5b8, 0xc704, 0xbc30, 0xc800, 0xb8e8, 0xd3ec, 0xb2e8, 0xc628, 0xb2f5,
	0xad6c, 0xb2f5, 0xd68c, 0xc6a9, 0xc6d0, 0xc695, 0xb0b4, 0xacbd, 0xcc28, 0xbc18, 0xd1f4, 0xce58, 0xc0c1, 0xb1e8, 0xd615, 0xc11d,
	0xac74, 0xd68c, 0xace0, 0xb828, 0xb78c, 0xb9ac, 0xc2b5, 0xc2dc, 0xb8e8, 0xc608, 0xcca9, 0xc124, 0xc120, 0xc704, 0xd45c, 0xc870,
	0xc801, 0xac15, 0xc0bc, 0xd3ec, 0xc591, 0xd544, 0xbcf5, 0xac04, 0xc120, 0xac04, 0xcd2c, 0xadf9, 0xb2e8, 0xc7a1, 0xbc88, 0xbc1c,
	0xc0c1, 0xc2ec, 0xbcc4, 0xc694, 0xb9cc, 0xb780, 0xc624, 0xd0c1, 0xad34, 0xc870, 0xc218, 0xb18d, 0xcca8, 0xcca8, 0xbcbd, 0xae08,
	0xb2f9, 0xcd09, 0xb2e8, 0xbe44, 0xb78c, 0xbcf5, 0xc720, 0xce58, 0xb300, 0xcd09, 0xb9d0, 0xc11d, 0xd53c, 0xd790, 0xbc15, 0xce5c,
	0xb8b0, 0xb871, 0xc2b5, 0xc12c, 0xb780, 0xc811, 0xb300, 0xac70, 0xcc2c, 0xc2dc, 0xacac, 0xbc18, 0xc608, 0xb780, 0xc544, 0xc11c,
	0xc544, 0xc694, 0xbd09, 0xb2f4, 0xbcf5, 0xbb18, 0xbcf5, 0xd328, 0xd575, 0xae30, 0xae30, 0xacac, 0xad00, 0xbcc0, 0xc5c4, 0xaddc,
	0xac01, 0xd3b8, 0xbaa8, 0xba71, 0xba71, 0xbcc4, 0xc2dc, 0xc0ac, 0xc810, 0xb77c, 0xac01, 0xb9e5, 0xc870, 0xb834, 0xc694, 0xc9c0,
	0xade0, 0xaca9, 0xc12c, 0xc704, 0xd601, 0xc804, 0xc720, 0xb78c, 0xc545, 0xb3c4, 0xce5c, 0xbc29, 0xae30, 0xba85, 0xc601, 0xad6c,
	0xcc98, 0xcc38, 0xadfc, 0xad00, 0xb4f1, 0xd55c, 0xb77c, 0xcc98, 0xac04, 0xbbf8, 0xac01, 0xcc98, 0xb77c, 0xb78c, 0xc2ec, 0xc801,
	0xad00, 0xacac, 0xad00, 0xc5c4, 0xaddc, 0xba71, 0xc2dc, 0xc810, 0xb78c, 0xac01, 0xae30, 0xaca9, 0xc801, 0xc804, 0xc720, 0xad6c,
	0xadfc, 0xcc98, 0xac01, 0xad6c, 0xadfc, 0xcd94, 0xacb0, 0xc9c0, 0xcd08, 0xae09, 0xace0, 0xb2e8, 0xc790, 0xc800, 0xc0c1, 0xd574,
	0xad8c, 0xaca9, 0xc11c, 0xd574, 0xada4, 0xad49, 0xcd09, 0xd574, 0xd63c, 0xad6c, 0xc131, 0xc18d, 0xc608, 0xae30, 0xb85d, 0xce58,
	0xb2e4, 0xd544, 0xc131, 0xace1, 0xc0c1, 0xad49, 0xce58, 0xd559, 0xcd09, 0xd734, 0xc758, 0xb825, 0xacb0, 0xd734, 0xc5f0, 0xd734,
	0xc5b8, 0xc5b8, 0xc815, 0xbd80, 0xad6c, 0xad6c, 0xaddc, 0xad49, 0xacc4, 0xbc94, 0xc2e0, 0xc870, 0xd64d, 0xcc28, 0xd1a0, 0xc6b0,
	0xc54c, 0xc774, 0xc778, 0xd6c8, 0xc740, 0xc0b0, 0xd758, 0xd0c1, 0xae30, 0xc2e0, 0xc740, 0xc640, 0xbd84, 0xc544, 0xc694, 0xc1a1,
	0xc2e0, 0xc74c, 0xd754, 0xacb0, 0xd6a8, 0xb20c, 0xc6b0, 0xc6b0, 0xc9c0, 0xd749, 0xbc29, 0xc2e0, 0xcd08, 0xc124, 0xd604, 0xc0ac,
	0xc900, 0xd5c8, 0xc5b5, 0xc5ed, 0xc18c, 0xce58, 0xac00, 0xc2e0, 0xd654, 0xc218, 0xc9c4, 0xc8fc, 0xc815, 0xad6c, 0xc790, 0xc790,
	0xcc38, 0xace0, 0xbd80, 0xacac, 0xc9c8, 0xb839, 0xc800, 0xc559, 0xb9ac, 0xb178, 0xbc18, 0xc8fc, 0xac10, 0xc608, 0xac70, 0xc694,
	0xc0ac, 0xc774, 0xc774, 0xac70, 0xc870, 0xd3c9, 0xd53c, 0xd615, 0xad74, 0xbc1c, 0xb2ec, 0xc800, 0xb3c4, 0xc800, 0xc0ac, 0xc12d,
	0xc601, 0xd6c4, 0xc21c, 0xc608, 0xd669, 0xd569, 0xc2dc, 0xcc30, 0xd6a8, 0xc2dc, 0xd604, 0xd0c0, 0xad6c, 0xada4, 0xc804, 0xd68c,
	0xd790, 0xd654, 0xd574, 0xc0c1, 0xc678, 0xc120, 0xc218, 0xb3d9, 0xbbf8, 0xcca8, 0xba85, 0xc561, 0xd68c, 0xd604, 0xd749, 0xad18,
	0xc774, 0xbcd1, 0xc870, 0xce58, 0xb8b0, 0xc8fc, 0xad11, 0xacfc, 0xbb34, 0xc608, 0xb4f1, 0xae30, 0xc9c0, 0xc778, 0xc18d, 0xb791,
	0xc544, 0xad11, 0xd76c, 0xc11c, 0xc815, 0xd0c4, 0xd328, 0xc810, 0xc720, 0xacbd, 0xcd08, 0xce68, 0xc0ac, 0xc554, 0xc5b4, 0xd6a8,
	0xc131, 0xacc4, 0xd604, 0xbb34, 0xc624, 0xace0, 0xc1a1, 0xd3ec, 0xd68c, 0xacbd, 0xc124, 0xc9c4, 0xc124, 0xb3c5, 0xd654, 0xcc3d,
	0xc218, 0xcca9, 0xacfc, 0xad74, 0xc885, 0xd6a8, 0xc218, 0xb9dd, 0xd604, 0xbe44, 0xce58, 0xb2f5, 0xc758, 0xb098, 0xc740, 0xc870,
	0xbe44, 0xcca0, 0xcca8, 0xce68, 0xc21c, 0xae30, 0xae30, 0xb2f4, 0xcd94, 0xc704, 0xad6d, 0xccad, 0xb3d9, 0xc7c1, 0xcc45, 0xcd94,
	0xac74, 0xcc29, 0xb7c9, 0xc804, 0xc219, 0xd558, 0xb860, 0xc2ec, 0xd45c, 0xd68c, 0xbc94, 0xc720, 0xcca9, 0xc11c, 0xd3b8, 0xc2dc,
	0xd6e4, 0xc2dc, 0xc6d0, 0xacfc, 0xc545, 0xc885, 0xccb4, 0xd574, 0xbcf5, 0xbcf4, 0xc815, 0xac04, 0xacc4, 0xc720, 0xc790, 0xc804,
	0xc2dc, 0xd718, 0xc778, 0xc554, 0xd568, 0xb0a8, 0xc2ec, 0xd48d, 0xc81c, 0xc591, 0xc5b8, 0xd669, 0xd6e4, 0xaca9, 0xb77d, 0xc9d1,
	0xbaa8, 0xc54c, 0xc704, 0xc131, 0xb4f1, 0xcd08, 0xc120, 0xac74, 0xd3ec, 0xad34, 0xd669, 0xd68d, 0xac00, 0xc601, 0xbbf8, 0xc18c,
	0xbc00, 0xd61c, 0xcc3d, 0xc9c4, 0xd559, 0xc81c, 0xc18d, 0xbc29, 0xc9c0, 0xacb8, 0xc775, 0xac15, 0xc6d0, 0xc0ac, 0xd559, 0xb3c4,
	0xc694, 0xc694, 0xd68d, 0xc6b0, 0xd45c, 0xcd1d, 0xacbd, 0xb9ac, 0xbaa8, 0xbaa8, 0xc0c1, 0xc801, 0xb958, 0xc804, 0xcc45, 0xc870,
	0xb828, 0xb8e8, 0xcc38, 0xad6c, 0xace4, 0xc2b5, 0xc791, 0xc624, 0xc624, 0xadfc, 0xc9d1, 0xc774, 0xd638, 0xac15, 0xb9cc, 0xc870,
	0xd568, 0xd654, 0xcc9c, 0xd6c4, 0xc99d, 0xc0bd, 0xd76c, 0xcc28, 0xb300, 0xc99d, 0xb1e8, 0xb780, 0xc640, 0xc751, 0xd73c, 0xae30,
	0xc900, 0xad50, 0xd30c, 0xd61c, 0xc120, 0xbb34, 0xcc38, 0xc7a1, 0xc2dd, 0xcd08, 0xb2f4, 0xcc38, 0xbcf4, 0xc2b9, 0xd604, 0xc870,
	0xd0c4, 0xb2f9, 0xc218, 0xd5d8, 0xaca9, 0xad50, 0xacbd, 0xc7a0, 0xb204, 0xc758, 0xc560, 0xc12c, 0xbe44, 0xd6fc, 0xd654, 0xc5ed,
	0xc758, 0xc120, 0xc591, 0xb204, 0xacac, 0xb300, 0xb2f5, 0xd638, 0xc8fc, 0xd638, 0xc758, 0xc575, 0xac10, 0xc608, 0xc804, 0xd61c,
	0xb3c5, 0xc801, 0xd604, 0xcc2c, 0xb8b0, 0xc2ec, 0xc704, 0xcca8, 0xb825, 0xc720, 0xbcc0, 0xc12d, 0xc5f0, 0xc545, 0xc218, 0xc704,
	0xc218, 0xc694, 0xcc38, 0xc591, 0xc740, 0xb780, 0xcc38, 0xd68d, 0xc12d, 0xd658, 0xcc2c, 0xc608, 0xb2f9, 0xc12c, 0xc5b8, 0xb3c5,
	0xc5b8, 0xacc4, 0xc815, 0xbd80, 0xc778, 0xae30, 0xc54c, 0xd64d, 0xd1a0, 0xc591, 0xc0b0, 0xd758, 0xd0c1, 0xd6c8, 0xc758, 0xc2e0,
	0xae30, 0xc778, 0xac15, 0xd718, 0xad6c, 0xac70, 0xc544, 0xb20c, 0xd5c8, 0xc640, 0xb860, 0xd749, 0xc1a1, 0xd48d, 0xc124, 0xbc29,
	0xacb0, 0xc815, 0xace0, 0xac00, 0xd3c9, 0xc800, 0xc2e0, 0xd615, 0xc0ac, 0xc18c, 0xc9c4, 0xc800, 0xcd08, 0xc0ac, 0xad74, 0xc870,
	0xd53c, 0xc5ed, 0xc774, 0xad11, 0xb8b0, 0xc2dc, 0xad18, 0xc2dc, 0xd790, 0xd68c, 0xc131, 0xc8fc, 0xc120, 0xd654, 0xd0c4, 0xad6c,
	0xc804, 0xada4, 0xc21c, 0xc608, 0xc7c1, 0xd574, 0xc0c1, 0xd0c0, 0xc6d0, 0xd6c4, 0xc8fc, 0xacc4, 0xbb34, 0xc5b4, 0xcd08, 0xc624,
	0xace0, 0xc720, 0xd68c, 0xad11, 0xc124, 0xc1a1, 0xd76c, 0xccad, 0xc81c, 0xcd94, 0xb099, 0xb3c5, 0xcc29, 0xbe44, 0xacfc, 0xc704,
	0xc720, 0xc218, 0xc2ec, 0xc870, 0xcca8, 0xb7c9, 0xc21c, 0xc218, 0xb2f4, 0xc2ec, 0xc758, 0xbaa8, 0xc2ec, 0xcca9, 0xd669, 0xac04,
	0xd574, 0xd559, 0xc54c, 0xc704, 0xc545, 0xc720, 0xd6e4, 0xcc38, 0xc790, 0xc554, 0xc5b8, 0xccb4, 0xbbf8, 0xd3b8, 0xc11c, 0xbaa8,
	0xb2f9, 0xc18d, 0xc0ac, 0xc694, 0xbc29, 0xc775, 0xacb8, 0xbc00, 0xadfc, 0xb9cc, 0xc801, 0xc804, 0xb958, 0xb2f4, 0xcc38, 0xcd08,
	0xb780, 0xbcf4, 0xd73c, 0xc5b8, 0xacac, 0xc12c, 0xcc38, 0xace1, 0xcc9c, 0xd6a1, 0xd558, 0xac39, 0xd64d, 0xd568, 0xd64d, 0xacc4,
	0xd61c, 0xd65c, 0xb8cc, 0xd568, 0xb3c5, 0xb871, 0xb450, 0xac15, 0xae30, 0xc2dc, 0xd48d, 0xb4f1, 0xc644, 0xbe44, 0xc218, 0xd568,
	0xd48d, 0xc9c8, 0xc9c8, 0xc5fc, 0xc5fc, 0xc2dc, 0xcd95, 0xd68c, 0xb3c8, 0xc758, 0xb3c8, 0xc5ed, 0xacac, 0xd30c, 0xd6c4, 0xc561,
	0xc800, 0xc0c1, 0xd658, 0xacac, 0xac04, 0xd574, 0xac70, 0xbd80, 0xd76c, 0xbe48, 0xd638, 0xc608, 0xc800, 0xac00, 0xbd84, 0xd61c,
	0xd639, 0xc628, 0xc6d0, 0xbe48, 0xc801, 0xc885, 0xbd84, 0xd76c, 0xce58, 0xd45c, 0xc2dc, 0xd55c, 0xbe44, 0xb19c, 0xbe44, 0xad6c,
	0xb19c, 0xc720, 0xcd08, 0xb9e5, 0xc0ac, 0xd734, 0xd6e4, 0xac04, 0xd559, 0xb9e5, 0xb9e5, 0xd55c, 0xbaa8, 0xb9ac, 0xc608, 0xd53c,
	0xc720, 0xac00, 0xb2e8, 0xbb18, 0xbe44, 0xd734, 0xc561, 0xb8e8, 0xb9e5, 0xcd94, 0xb2e8, 0xd658, 0xd655, 0xd328, 0xc815, 0xc6d0,
	0xbd80, 0xc7ac, 0xacf5, 0xd2b9, 0xc774, 0xd56d, 0xc644, 0xbe48, 0xd654, 0xd310, 0xd0d0, 0xad00, 0xcc45, 0xc9c8, 0xc774, 0xc800,
	0xc138, 0xd53c, 0xc790, 0xc774, 0xadc0, 0xd3b8, 0xd3c4, 0xb9e4, 0xb300, 0xc0dd, 0xd669, 0xbe44, 0xcca9, 0xc774, 0xc9c0, 0xbb34,
	0xd558, 0xbd84, 0xb8b0, 0xc784, 0xd68c, 0xd574, 0xbcc0, 0xc790, 0xac00, 0xd73c, 0xc801, 0xad50, 0xd574, 0xc7a5, 0xcc9c, 0xc601,
	0xc21c, 0xc9c4, 0xc0ac, 0xbe48, 0xbe48, 0xad6c, 0xc0ac, 0xad00, 0xc7a5, 0xc8fc, 0xb8b0, 0xcc2c, 0xc0ac, 0xce68, 0xc0c1, 0xc804,
	0xbc30, 0xac31, 0xd604, 0xb9e4, 0xcc9c, 0xc218, 0xbd80, 0xd0d0, 0xc885, 0xc885, 0xc9c8, 0xc7ac, 0xc7a5, 0xb3c4, 0xc2e0, 0xd615,
	0xcd98, 0xc6b4, 0xbcf4, 0xc7ac, 0xb8b0, 0xbd09, 0xcc3d, 0xc7ac, 0xc789, 0xc560, 0xc7a0, 0xbd80, 0xad6c, 0xc0c8, 0xc0c9, 0xb8cc,
	0xc704, 0xd328, 0xc0bc, 0xc644, 0xc9c0, 0xcdcc, 0xd45c, 0xc724, 0xc99d, 0xb2f4, 0xcc2c, 0xc548, 0xbcf5, 0xc12c, 0xb9cc, 0xc601,
	0xc2e0, 0xac10, 0xd604, 0xc7a5, 0xbe44, 0xb3c5, 0xc18d, 0xc548, 0xc0c1, 0xd604, 0xb8e1, 0xacf5, 0xc7a5, 0xd328, 0xc815, 0xbd80,
	0xc6d0, 0xacf5, 0xc7ac, 0xcc45, 0xd604, 0xd328, 0xc7a5, 0xd654, 0xc9c8, 0xd310, 0xd0d0, 0xbe48, 0xd3c4, 0xad6c, 0xc800, 0xad00,
	0xc774, 0xcc9c, 0xbd84, 0xc138, 0xcca9, 0xadc0, 0xd669, 0xb300, 0xbb34, 0xbe44, 0xd558, 0xc774, 0xc801, 0xc9c0, 0xac00, 0xd68c,
	0xc790, 0xc784, 0xb8b0, 0xc7a5, 0xc790, 0xd574, 0xc2e0, 0xad6c, 0xc9c4, 0xb8b0, 0xc0ac, 0xbd80, 0xb3c4, 0xc7ac, 0xc18d, 0xc0c1,
	0xc0ac, 0xbe44, 0xc8fc, 0xac31, 0xbc30, 0xd0d0, 0xb8b0, 0xbd09, 0xcdcc, 0xbd80, 0xc7a0, 0xc0c8, 0xc0c9, 0xc548, 0xcc2c, 0xc724,
	0xc99d, 0xc12c, 0xc601, 0xacf5, 0xc801, 0xd601, 0xc0ac, 0xb09c, 0xb3d9, 0xd601, 0xc815, 0xd601, 0xc815, 0xc790, 0xd558, 0xb2f9,
	0xc8fc, 0xc8fc, 0xb825, 0xaddc, 0xbd80, 0xc870, 0xac04, 0xae30, 0xc0b0, 0xacbd, 0xae08, 0xc120, 0xc790, 0xacb0, 0xadfc, 0xc9c0,
	0xc790, 0xc9c4, 0xc9c4, 0xc808, 0xc800, 0xcd08, 0xc800, 0xc2ed, 0xc7a0, 0xad74, 0xc6d4, 0xcd94, 0xae38, 0xcd94, 0xc8fc, 0xd65c,
	0xd608, 0xc790, 0xc870, 0xd0c0, 0xb82c, 0xac04, 0xc88c, 0xcd09, 0xd601, 0xc870, 0xc18d, 0xc74c, 0xad6d, 0xacb8, 0xc791, 0xc7c1,
	0xcd08, 0xc720, 0xb85d, 0xcde8, 0xd0d5, 0xcd94, 0xc790, 0xc81c, 0xcd94, 0xce59, 0xd669, 0xad50, 0xad50, 0xcd08, 0xc870, 0xc801,
	0xc774, 0xcc2c, 0xcc2c, 0xc871, 0xd30c, 0xbc15, 0xc624, 0xd758, 0xb3c8, 0xacb0, 0xbd80, 0xcc38, 0xacac, 0xbc29, 0xc9c0, 0xc0bd,
	0xc6d4, 0xd30c, 0xae30, 0xc57d, 0xcc3d, 0xd0c1, 0xd0dc, 0xc608, 0xc804, 0xb839, 0xb9e4, 0xbc1c, 0xc9c8, 0xace0, 0xd0c0, 0xac00,
	0xcc28, 0xd3ec, 0xac00, 0xc8fc, 0xad6c, 0xc811, 0xcc99, 0xbd80, 0xbc18, 0xc800, 0xc0b0, 0xd30c, 0xb2c8, 0xac70, 0xb825, 0xadfc,
	0xc774, 0xc801, 0xb2e4, 0xc120, 0xad50, 0xd0c0, 0xc8fc, 0xc804, 0xacfc, 0xc138, 0xada4, 0xacf5, 0xaddc, 0xd56d, 0xce58, 0xb85c,
	0xbcc0, 0xce58, 0xac81, 0xb3c4, 0xc120, 0xcc9c, 0xb2ec, 0xad50, 0xd544, 0xc120, 0xd0c0, 0xc81c, 0xad6d, 0xae30, 0xc219, 0xb3c4,
	0xcd09, 0xacbd, 0xc12d, 0xc18c, 0xbcf4, 0xc608, 0xc900, 0xbb34, 0xc18c, 0xb7c9, 0xc6a9, 0xac01, 0xc8fc, 0xad50, 0xbd80, 0xb2f5,
	0xcc9c, 0xae30, 0xc704, 0xc720, 0xd0c1, 0xcca9, 0xc801, 0xb150, 0xad6d, 0xc12d, 0xb95c, 0xb959, 0xb989, 0xacfc, 0xac70, 0xc9c0,
	0xc6d0, 0xad8c, 0xcc99, 0xbd81, 0xc878, 0xcca9, 0xae30, 0xcd95, 0xc885, 0xcc44, 0xc885, 0xbcd1, 0xac04, 0xc815, 0xc810, 0xcc99,
	0xc720, 0xd0c1, 0xb454, 0xc900, 0xc6a9, 0xc885, 0xc81c, 0xcc28, 0xce68, 0xb2e8, 0xac74, 0xacfc, 0xd0d5, 0xc6b0, 0xbcf5, 0xc871,
	0xc811, 0xd3b8, 0xc720, 0xb0d1, 0xc81c, 0xc0ac, 0xd1f4, 0xac74, 0xb3c4, 0xcc28, 0xd61c, 0xb2f5, 0xcc3d, 0xc804, 0xc804, 0xc81c,
	0xcc99, 0xc12d, 0xb9cc, 0xb958, 0xc7a0, 0xd544, 0xc6a9, 0xb85d, 0xb8cc, 0xcd95, 0xb2f9, 0xb300, 0xcd95, 0xc0ac, 0xaddc, 0xc801,
	0xcc99, 0xc7a5, 0xcc99, 0xb9cc, 0xc885, 0xb828, 0xbd95, 0xc870, 0xc5f0, 0xbcc4, 0xd1f4, 0xade4, 0xb4f1, 0xce35, 0xc120, 0xbc88,
	0xc8fc, 0xc885, 0xc900, 0xbc1c, 0xcd95, 0xcd95, 0xad90, 0xad90, 0xb9b0, 0xb2f5, 0xad50, 0xad50, 0xbcf5, 0xb8cc, 0xb3c8, 0xcc2c,
	0xad00, 0xc870, 0xb2ec, 0xbcbd, 0xbcbd, 0xcd09, 0xac70, 0xc800, 0xad50, 0xb3c8, 0xc8fc, 0xc81c, 0xbb34, 0xc57d, 0xb144, 0xb9b0,
	0xb835, 0xcc99, 0xb825, 0xc9c0, 0xc804, 0xc8fc, 0xb2e8, 0xc704, 0xb8e1, 0xb9b0, 0xc120, 0xc704, 0xcc2c, 0xb780, 0xc12d, 0xc591,
	0xc124, 0xc12d, 0xb2f5, 0xad6c, 0xc801, 0xcc2c, 0xcc2c, 0xc0ac, 0xae30, 0xacfd, 0xb9b0, 0xc2e0, 0xad81, 0xd0d0, 0xbd84, 0xad6c,
	0xccb4, 0xd0c0, 0xd0c0, 0xad81, 0xb791, 0xc778, 0xb77c, 0xc65c, 0xae30, 0xad6d, 0xb2f9, 0xacf5, 0xc7a5, 0xc5b8, 0xbbf8, 0xac15,
	0xad6c, 0xb8e8, 0xb85c, 0xd0c0, 0xc9c1, 0xc548, 0xccb4, 0xb3c4, 0xc751, 0xc625, 0xcc28, 0xc54c, 0xada4, 0xad70, 0xc138, 0xc6d4,
	0xc120, 0xb300, 0xd5cc, 0xbc94, 0xc778, 0xc0b0, 0xad11, 0xc218, 0xb3c8, 0xc9c4, 0xb300, 0xc561, 0xb0a9, 0xae30, 0xbaa8, 0xc5f0,
	0xc784, 0xae08, 0xc804, 0xad49, 0xd638, 0xad6c, 0xd669, 0xc800, 0xb839, 0xd0dc, 0xc694, 0xc9c4, 0xbd84, 0xad11, 0xc559, 0xd33d,
	0xbc30, 0xace0, 0xace0, 0xd3ec, 0xc8fc, 0xc6a9, 0xc561, 0xbc1c, 0xcd95, 0xc9c0, 0xcd08, 0xac00, 0xc77c, 0xacbd, 0xc2dd, 0xbcd1,
	0xc774, 0xacf5, 0xad6d, 0xad50, 0xad11, 0xb85c, 0xd574, 0xc804, 0xc8fc, 0xc7ac, 0xc9c0, 0xc694, 0xb7c9, 0xc695, 0xc18c, 0xc720,
	0xc644, 0xad70, 0xcca9, 0xb9cc, 0xbcf4, 0xacbd, 0xc8fc, 0xc608, 0xb989, 0xcca9, 0xc794, 0xb7c9, 0xce58, 0xd718, 0xb9dd, 0xcca0,
	0xacfc, 0xac10, 0xc758, 0xd33d, 0xcc9c, 0xace4, 0xb828, 0xbcd1, 0xad00, 0xbc30, 0xb95c, 0xbc30, 0xb7c9, 0xc5f0, 0xc720, 0xc9d1,
	0xc591, 0xd568, 0xcc9c, 0xc8fc, 0xc21c, 0xac08, 0xc720, 0xd6a1, 0xc218, 0xbcf5, 0xce58, 0xbcf5, 0xc628, 0xbd84, 0xc804, 0xc5ec,
	0xc628, 0xac10, 0xace1, 0xc9c4, 0xd560, 0xc6d0, 0xb85d, 0xad50, 0xcd08, 0xc804, 0xc138, 0xc5f0, 0xc124, 0xcca0, 0xad50, 0xc794,
	0xbcf5, 0xb8cc, 0xbd84, 0xbc88, 0xb9b0, 0xac08, 0xc0c9, 0xac10, 0xd658, 0xc758, 0xaca9, 0xb300, 0xc774, 0xc5ec, 0xd568, 0xad49,
	0xb8b0, 0xbe44, 0xb825, 0xb825, 0xb85c, 0xb9b0, 0xcc28, 0xc54c, 0xada4, 0xd5cc, 0xb300, 0xc778, 0xc804, 0xc561, 0xb95c, 0xc5f0,
	0xad49, 0xace0, 0xac00, 0xb85c, 0xcd95, 0xc9c0, 0xc77c, 0xd638, 0xc9c4, 0xb825, 0xcd08, 0xacbd, 0xc2dd, 0xc7ac, 0xc9c0, 0xad50,
	0xc8fc, 0xc804, 0xb85c, 0xad50, 0xcca9, 0xbcf4, 0xb7c9, 0xb828, 0xbc30, 0xd718, 0xace4, 0xb9dd, 0xb7c9, 0xcca0, 0xce58, 0xc8fc,
	0xbcf5, 0xc9d1, 0xc628, 0xc218, 0xbe44, 0xc6d0, 0xd560, 0xc804, 0xb85d, 0xcca0, 0xb9b0, 0xc2e0, 0xace0, 0xc0ac, 0xc0ac, 0xd53c,
	0xc8c4, 0xbcc0, 0xb784, 0xb784, 0xc0ac, 0xc124, 0xd310, 0xd310, 0xbcc0, 0xbcc0, 0xc124, 0xbcc0, 0xbc18, 0xc0ac, 0xbcc0, 0xbcc0,
	0xc9c4, 0xc695, 0xb18d, 0xb18d, 0xc9c4, 0xcc29, 0xcc29, 0xc77c, 0xc789, 0xbcc0, 0xbcc0, 0xc2ed, 0xc785, 0xb8cc, 0xccb4, 0xcc9c,
	0xac04, 0xcc9c, 0xc6b0, 0xc624, 0xd758, 0xc2e0, 0xc774, 0xacfc, 0xb9e4, 0xc11c, 0xc7a1, 0xad11, 0xb3cc, 0xb454, 0xc601, 0xccb4,
	0xc6b4, 0xadfc, 0xd56d, 0xc544, 0xbc18, 0xc624, 0xccb4, 0xc640, 0xd658, 0xc800, 0xc911, 0xc9c4, 0xc6d0, 0xc704, 0xb828, 0xc9c0,
	0xcca9, 0xb2c8, 0xcd08, 0xb82c, 0xc774, 0xd615, 0xac00, 0xc9c4, 0xd0dc, 0xc774, 0xc801, 0xbc15, 0xc655, 0xc9c8, 0xcc45, 0xb3c4,
	0xc220, 0xc774, 0xac81, 0xacbd, 0xd68c, 0xb3d9, 0xc720, 0xbbf8, 0xbcd1, 0xc801, 0xb0b4, 0xc774, 0xacb0, 0xcd94, 0xb82c, 0xc900,
	0xd1f4, 0xc1a1, 0xad04, 0xb3c4, 0xbc29, 0xd6c4, 0xc5ed, 0xb3c8, 0xd615, 0xc120, 0xc190, 0xd3ec, 0xc720, 0xc18c, 0xc8fc, 0xd22c,
	0xcd95, 0xad6c, 0xccb4, 0xccb4, 0xb3c4, 0xacbd, 0xc801, 0xb450, 0xc758, 0xc800, 0xd1b5, 0xad11, 0xc624, 0xc11c, 0xb839, 0xc18d,
	0xc870, 0xc900, 0xbd09, 0xb828, 0xc0ac, 0xd68c, 0xb9ac, 0xace1, 0xb798, 0xbd84, 0xcc29, 0xacb0, 0xbcd1, 0xd658, 0xccb4, 0xb85d,
	0xc720, 0xc8fc, 0xc9c4, 0xc721, 0xd0c1, 0xaddc, 0xc704, 0xc801, 0xc77c, 0xb2ec, 0xc6d0, 0xb77c, 0xd54d, 0xb0d1, 0xc720, 0xd0d5,
	0xc218, 0xb454, 0xc218, 0xc5b8, 0xcc9c, 0xc9c0, 0xccb4, 0xc6b0, 0xc2dd, 0xc815, 0xc720, 0xc6b4, 0xc545, 0xd3b8, 0xacfc, 0xc54c,
	0xd558, 0xd669, 0xc8fc, 0xb3c4, 0xb2ec, 0xc704, 0xb0a8, 0xc720, 0xad6c, 0xc694, 0xcd94, 0xb958, 0xc190, 0xb2f5, 0xccb4, 0xc9c0,
	0xc6d0, 0xc18c, 0xd0d1, 0xacac, 0xd72d, 0xc694, 0xad00, 0xc7a5, 0xc624, 0xc801, 0xc0bd, 0xce59, 0xc18d, 0xc870, 0xcc28, 0xb454,
	0xccb4, 0xb8e8, 0xc9c0, 0xc88c, 0xb9b0, 0xc900, 0xc694, 0xcc9c, 0xc120, 0xd73c, 0xc720, 0xc624, 0xb8cc, 0xac70, 0xc11c, 0xd53c,
	0xc694, 0xb9e4, 0xd574, 0xc218, 0xd658, 0xc804, 0xb4f1, 0xc774, 0xb9c9, 0xbcc0, 0xbcc0, 0xb78d, 0xb824, 0xc6d0, 0xc720, 0xb77c,
	0xb9ac, 0xc74d, 0xc815, 0xb4f1, 0xae30, 0xc639, 0xc0b0, 0xd55c, 0xc6b0, 0xb9dd, 0xc5ec, 0xacf5, 0xc11d, 0xad11, 0xbd80, 0xd56d,
	0xbe48, 0xbc29, 0xd615, 0xb098, 0xd754, 0xc2ec, 0xbc29, 0xc6d0, 0xcd0c, 0xd654, 0xc0ac, 0xbc29, 0xad50, 0xad6c, 0xc6b0, 0xac10,
	0xd0dc, 0xad6c, 0xd544, 0xbe44, 0xbcd1, 0xc18c, 0xd328, 0xc640, 0xc800, 0xcd94, 0xc5c5, 0xb9b0, 0xad11, 0xaddc, 0xc8fc, 0xc2dc,
	0xace0, 0xc6b1, 0xac1c, 0xd569, 0xadf9, 0xc9c8, 0xae38, 0xc21c, 0xd6c4, 0xd615, 0xad50, 0xd574, 0xaddc, 0xb098, 0xb791, 0xacb9,
	0xd68c, 0xc815, 0xb791, 0xc6b4, 0xc5f0, 0xc131, 0xb450, 0xce58, 0xb824, 0xbd80, 0xc624, 0xbd80, 0xace0, 0xd559, 0xb791, 0xacb9,
	0xacbd, 0xad70, 0xc601, 0xbc1c, 0xadf9, 0xd328, 0xb825, 0xc6b4, 0xbd80, 0xd6a8, 0xcc98, 0xbe44, 0xccad, 0xacfd, 0xc8fc, 0xb2f4,
	0xcd94, 0xbcd1, 0xb798, 0xc608, 0xce68, 0xc6b0, 0xbd80, 0xd5a5, 0xb2e8, 0xaca9, 0xc639, 0xad50, 0xc758, 0xb3c4, 0xc5b8, 0xbbf8,
	0xc57d, 0xd328, 0xc545, 0xc720, 0xacac, 0xc6b0, 0xc6b4, 0xd6c4, 0xaddc, 0xd5a5, 0xd5a5, 0xc218, 0xb2f9, 0xba85, 0xc2dd, 0xc695,
	0xcd95, 0xc790, 0xcd94, 0xaca9, 0xc624, 0xd5a5, 0xc6b4, 0xd638, 0xc6a9, 0xbe44, 0xb9c9, 0xc18c, 0xbd80, 0xb8cc, 0xc740, 0xc804,
	0xd638, 0xad50, 0xc5b8, 0xc7a5, 0xb9cc, 0xad50, 0xd5c8, 0xb4f1, 0xd3d0, 0xc2ec, 0xbe44, 0xc99d, 0xc704, 0xc815, 0xbb34, 0xc120,
	0xb9b0, 0xd30c, 0xb2e8, 0xb9f9, 0xc5c5, 0xc870, 0xd68c, 0xd48d, 0xbabd, 0xcd94, 0xad11, 0xb828, 0xcc2c, 0xc804, 0xc6b0, 0xae30,
	0xc5f0, 0xcc38, 0xcc2c, 0xb839, 0xd658, 0xd734, 0xd48d, 0xcc2c, 0xb825, 0xc720, 0xc815, 0xcd94, 0xc791, 0xbc30, 0xc8fc, 0xc774,
	0xd56d, 0xc6b0, 0xc8fc, 0xc5fc, 0xcde8, 0xbaa8, 0xd0d0, 0xd6c4, 0xb450, 0xc9d0, 0xbd84, 0xc6d0, 0xbd80, 0xc628, 0xd0dc, 0xcca8,
	0xac00, 0xd0c0, 0xcd08, 0xac10, 0xace0, 0xc18c, 0xbc1c, 0xc218, 0xc7ac, 0xba85, 0xb77d, 0xcca0, 0xc218, 0xc720, 0xb3d9, 0xc9c0,
	0xc120, 0xc7a5, 0xc815, 0xc724, 0xb3c4, 0xd6a8, 0xb9e4, 0xd639, 0xc0b0, 0xb8b0, 0xd3ec, 0xcde8, 0xd574, 0xc5fc, 0xc2dc, 0xc591,
	0xc720, 0xb85d, 0xb9bc, 0xc5c4, 0xb3c4, 0xbc30, 0xc794, 0xc21c, 0xb2f4, 0xcde8, 0xcca0, 0xcd08, 0xace4, 0xc81c, 0xd568, 0xb3c4,
	0xd638, 0xc11c, 0xc131, 0xd0d0, 0xcd94, 0xc21c, 0xc628, 0xbc1c, 0xac11, 0xc218, 0xbbf8, 0xcca0, 0xcd94, 0xcc28, 0xc628, 0xc601,
	0xc559, 0xc790, 0xd574, 0xb2f9, 0xc7a5, 0xd45c, 0xcc38, 0xc5b4, 0xb9ac, 0xc870, 0xb8cc, 0xc758, 0xc7a5, 0xbcf5, 0xcd08, 0xd61c,
	0xb2f4, 0xbc1c, 0xb18d, 0xc5ed, 0xb840, 0xac39, 0xc5fc, 0xc758, 0xc591, 0xc720, 0xd6c8, 0xc218, 0xc5f0, 0xb839, 0xbbf8, 0xbbf8,
	0xc591, 0xd754, 0xc870, 0xc2dc, 0xbbf8, 0xc5fc, 0xbcc0, 0xcc44, 0xc11d, 0xc720, 0xc11d, 0xc11d, 0xb9ac, 0xc911, 0xc57c, 0xb7c9,
	0xb9ac, 0xae08, 0xae08, 0xad6c, 0xc744, 0xc870, 0xb3c4, 0xc1e0, 0xc815, 0xbc15, 0xad6c, 0xd751, 0xbd80, 0xce68, 0xce69, 0xd314,
	0xb780, 0xbd80, 0xb0b4, 0xc870, 0xc0bc, 0xcd08, 0xad6c, 0xcc9c, 0xacb0, 0xbc94, 0xc6b0, 0xd654, 0xd55c, 0xacf5, 0xc7ac, 0xb9dd,
	0xc77c, 0xccb4, 0xc0ac, 0xd758, 0xc775, 0xcc44, 0xc0ac, 0xd1a0, 0xc11d, 0xb140, 0xcc9c, 0xd658, 0xc778, 0xbcbd, 0xc57c, 0xadfc,
	0xd30c, 0xbc29, 0xce68, 0xacac, 0xb450, 0xc6d4, 0xc5f0, 0xbd80, 0xbe44, 0xb0a9, 0xc2ec, 0xc640, 0xacb0, 0xb454, 0xad6c, 0xc778,
	0xac80, 0xd310, 0xc0bd, 0xc784, 0xcd08, 0xb274, 0xbd84, 0xc724, 0xc758, 0xae08, 0xbe44, 0xacfc, 0xd6a1, 0xc74c, 0xade0, 0xc870,
	0xc5ed, 0xc911, 0xb151, 0xac1c, 0xc77c, 0xd654, 0xd0dc, 0xd56d, 0xc6d0, 0xd638, 0xc561, 0xbb38, 0xd0c1, 0xc790, 0xb2c8, 0xb3cc,
	0xc2dc, 0xbbfc, 0xace0, 0xc544, 0xb839, 0xbcd1, 0xc0ac, 0xace0, 0xbc1c, 0xd53c, 0xc625, 0xc0ac, 0xc791, 0xd3ec, 0xc720, 0xc804,
	0xac11, 0xc9c4, 0xc0ac, 0xc2dc, 0xcca0, 0xac70, 0xcca9, 0xc0ac, 0xc0ac, 0xd604, 0xcd08, 0xd3ec, 0xd654, 0xd544, 0xc0dd, 0xc11c,
	0xc11d, 0xbc15, 0xc8fc, 0xce59, 0xc7a1, 0xd30c, 0xb3d9, 0xacb8, 0xbd88, 0xc7ac, 0xb958, 0xc5f0, 0xbd80, 0xb9bd, 0xc6d4, 0xbe44,
	0xc559, 0xbc18, 0xbc1c, 0xac81, 0xad6c, 0xc220, 0xc815, 0xbb34, 0xb2c8, 0xb151, 0xccb4, 0xac00, 0xbaa9, 0xb2e8, 0xc2e0, 0xc774,
	0xc0ac, 0xad11, 0xac00, 0xbd81, 0xac10, 0xb3d9, 0xd615, 0xd64d, 0xad50, 0xce58, 0xc774, 0xb77d, 0xbcd1, 0xc2dd, 0xbaa8, 0xd611,
	0xc740, 0xade0, 0xc8fc, 0xcd1d, 0xd5a5, 0xb3d9, 0xbc31, 0xb8b0, 0xacc4, 0xc728, 0xc220, 0xc784, 0xc874, 0xc9c8, 0xacf5, 0xcc45,
	0xccb4, 0xc120, 0xacac, 0xc804, 0xd53c, 0xcca0, 0xc218, 0xd6c4, 0xba85, 0xacfc, 0xc870, 0xc12c, 0xd568, 0xd734, 0xade0, 0xcc28,
	0xb85c, 0xae38, 0xbcbd, 0xc5ec, 0xbbf8, 0xc758, 0xc778, 0xad11, 0xc548, 0xc8fc, 0xc720, 0xc0c9, 0xace0, 0xc804, 0xb780, 0xc0ac,
	0xc560, 0xc870, 0xd55c, 0xc608, 0xc138, 0xac31, 0xad6c, 0xc18c, 0xc12d, 0xc218, 0xc7a5, 0xc81c, 0xc88c, 0xad04, 0xd64d, 0xc885,
	0xb450, 0xb824, 0xb9e4, 0xb791, 0xb9d8, 0xc790, 0xc724, 0xd328, 0xc625, 0xc18d, 0xc695, 0xc5f0, 0xc815, 0xbc1c, 0xd658, 0xd611,
	0xd6a1, 0xc804, 0xbd09, 0xcca8, 0xb9cc, 0xc9c0, 0xc0ac, 0xd604, 0xc624, 0xc5b4, 0xc870, 0xad11, 0xcc29, 0xb82c, 0xd615, 0xce68,
	0xc2e0, 0xd568, 0xb82c, 0xc57c, 0xc11c, 0xc815, 0xad6d, 0xd604, 0xcca0, 0xb9dd, 0xd3ec, 0xb9ac, 0xbc18, 0xc608, 0xc131, 0xace0,
	0xb9ac, 0xd2b9, 0xbcd1, 0xc8fc, 0xadf9, 0xb3c5, 0xb958, 0xcd5c, 0xac70, 0xcc3d, 0xc6d0, 0xacac, 0xac15, 0xc870, 0xb3c4, 0xc0c1,
	0xb95c, 0xacfc, 0xb989, 0xd30c, 0xb85d, 0xb9ac, 0xcc3d, 0xbd80, 0xad8c, 0xbbfc, 0xcd40, 0xd33d, 0xc548, 0xbe44, 0xd568, 0xc544,
	0xcd94, 0xb8b0, 0xc544, 0xad49, 0xd0d1, 0xace4, 0xb3c5, 0xcd94, 0xcd94, 0xce58, 0xc7c1, 0xbd84, 0xb151, 0xc885, 0xc21c, 0xb2f4,
	0xc815, 0xae30, 0xc804, 0xcca0, 0xae30, 0xc721, 0xae08, 0xad00, 0xbb18, 0xcc3d, 0xc804, 0xc11d, 0xb3d9, 0xc870, 0xace0, 0xcc29,
	0xc220, 0xc9c4, 0xb85d, 0xb9f9, 0xb85d, 0xd654, 0xd45c, 0xc54c, 0xb798, 0xae0d, 0xbc29, 0xbb34, 0xb0b4, 0xb9d8, 0xcc38, 0xd638,
	0xb4dd, 0xd754, 0xae08, 0xd640, 0xacbd, 0xbc95, 0xbb38, 0xac1c, 0xc601, 0xc2dc, 0xb828, 0xacfc, 0xc120, 0xb3c4, 0xb3cc, 0xc704,
	0xc885, 0xbcf5, 0xc720, 0xc9d1, 0xc545, 0xad70, 0xce68, 0xc81c, 0xcc30, 0xd639, 0xc591, 0xb2e8, 0xd558, 0xc6b0, 0xac31, 0xc131,
	0xad49, 0xc678, 0xbcf5, 0xcd08, 0xc0bd, 0xacc4, 0xc0ac, 0xad49, 0xaddc, 0xcca8, 0xbb34, 0xcd08, 0xcd08, 0xd6c4, 0xc720, 0xcd1d,
	0xd658, 0xc12d, 0xbbfc, 0xac10, 0xb2e8, 0xac74, 0xc1a1, 0xaddc, 0xd638, 0xc120, 0xd0c0, 0xac08, 0xce68, 0xd3b8, 0xc885, 0xce58,
	0xc218, 0xc57c, 0xbbf8, 0xd30c, 0xc560, 0xacc4, 0xc804, 0xbbf8, 0xcc28, 0xb2f5, 0xbc29, 0xd560, 0xacb8, 0xc0c9, 0xac1c, 0xb958,
	0xc694, 0xd0d1, 0xb204, 0xc639, 0xc6a9, 0xb2f9, 0xc1c4, 0xc7c1, 0xb825, 0xc0ad, 0xcd94, 0xbc15, 0xbc18, 0xc0bd, 0xbe44, 0xc0c1,
	0xac15, 0xc790, 0xc624, 0xd615, 0xd669, 0xc870, 0xb958, 0xac1c, 0xc900, 0xc1c4, 0xc218, 0xb9d8, 0xd638, 0xc9c4, 0xc9c4, 0xb77c,
	0xc77c, 0xc6d0, 0xb2f9, 0xc5bc, 0xc2dd, 0xac00, 0xac00, 0xb9c8, 0xc804, 0xc1a1, 0xc870, 0xc1c4, 0xd558, 0xbd09, 0xc628, 0xb098,
	0xb85c, 0xc1c4, 0xc6b0, 0xc871, 0xb2e8, 0xc218, 0xad00, 0xc120, 0xb828, 0xc218, 0xc624, 0xb9cc, 0xb9c9, 0xb77c, 0xd544, 0xc608,
	0xb958, 0xc801, 0xc0bc, 0xcd1d, 0xc778, 0xc624, 0xc624, 0xac31, 0xc7a5, 0xcd5c, 0xcc99, 0xc0c1, 0xb2f9, 0xb9cc, 0xc6a9, 0xc0b0,
	0xbd09, 0xacbd, 0xd45c, 0xc11c, 0xb8e8, 0xc218, 0xcd1d, 0xb871, 0xcc38, 0xc810, 0xc870, 0xb824, 0xd558, 0xc2e4, 0xac15, 0xc0c1,
	0xbd95, 0xc7a5, 0xacac, 0xc7c1, 0xb85c, 0xd654, 0xc9d1, 0xbc15, 0xd61c, 0xac15, 0xbc1c, 0xb9b0, 0xcc45, 0xc218, 0xc0b0, 0xc7c1,
	0xada4, 0xc0ac, 0xb958, 0xb1e8, 0xd6a1, 0xbcc4, 0xc218, 0xbc88, 0xad50, 0xc804, 0xc591, 0xd0d5, 0xc0c1, 0xd73c, 0xcd08, 0xc900,
	0xb8cc, 0xacb0, 0xb85c, 0xb300, 0xc2ec, 0xc7a0, 0xae30, 0xac04, 0xc885, 0xb4f1, 0xc544, 0xc601, 0xb300, 0xad90, 0xb204, 0xccb4,
	0xbcf4, 0xcca0, 0xae08, 0xc7a5, 0xc815, 0xc120, 0xac1c, 0xac04, 0xbe44, 0xc218, 0xb85c, 0xc804, 0xd68c, 0xc624, 0xb834, 0xc791,
	0xc870, 0xcca8, 0xd0c1, 0xb8b0, 0xbcbd, 0xcca0, 0xd658, 0xc5fd, 0xd0c1, 0xacfc, 0xb2f9, 0xac70, 0xbd84, 0xb2ec, 0xd3d0, 0xc758,
	0xc560, 0xbc88, 0xd6c8, 0xc870, 0xc8fc, 0xd6a1, 0xcd94, 0xc81c, 0xb2c8, 0xd0d1, 0xd655, 0xacbd, 0xbe48, 0xc601, 0xada4, 0xb155,
	0xc720, 0xac10, 0xac10, 0xacac, 0xcc30, 0xc9c8, 0xba78, 0xb824, 0xb8b0, 0xacc4, 0xcc2c, 0xad11, 0xc0c1, 0xbd09, 0xb78d, 0xb3c5,
	0xc0ad, 0xcc29, 0xb824, 0xd45c, 0xd3ec, 0xb178, 0xd604, 0xad00, 0xb871, 0xc545, 0xb85c, 0xd760, 0xac10, 0xb780, 0xbc15, 0xcca8,
	0xc57d, 0xcc38, 0xc591, 0xac74, 0xd734, 0xad00, 0xc7a5, 0xc12d, 0xb8b0, 0xcc2c, 0xad6c, 0xbc18, 0xb77c, 0xcc2c, 0xb780, 0xcc29,
	0xc54c, 0xacfd, 0xb2f9, 0xcd09, 0xb780, 0xae08, 0xad6c, 0xc744, 0xce68, 0xc815, 0xc1e0, 0xbc15, 0xc870, 0xd1a0, 0xcc9c, 0xcc9c,
	0xc0bc, 0xc0bd, 0xbc94, 0xc870, 0xbb38, 0xb140, 0xc591, 0xcc44, 0xacac, 0xac1c, 0xbe44, 0xd0dc, 0xac70, 0xb454, 0xcd08, 0xc885,
	0xb0a9, 0xd328, 0xac15, 0xd310, 0xac80, 0xc6d4, 0xd760, 0xade0, 0xc624, 0xad6c, 0xd56d, 0xbc29, 0xd654, 0xb450, 0xb274, 0xd30c,
	0xc625, 0xc804, 0xc815, 0xacb8, 0xace0, 0xbc1c, 0xc544, 0xd30c, 0xd3ec, 0xbc1c, 0xc6d4, 0xcca9, 0xbaa9, 0xb2e8, 0xac11, 0xc804,
	0xc720, 0xcca0, 0xbc15, 0xb839, 0xc0ad, 0xc5f0, 0xb958, 0xd3ec, 0xc2dc, 0xd604, 0xc0ac, 0xd544, 0xb2c8, 0xd53c, 0xd0c1, 0xd615,
	0xace0, 0xb85c, 0xc774, 0xb9dd, 0xc544, 0xc720, 0xc131, 0xd611, 0xc57c, 0xb1e8, 0xc9c8, 0xb2f9, 0xb3d9, 0xb824, 0xc870, 0xc778,
	0xac1c, 0xcc30, 0xc218, 0xc120, 0xc815, 0xc8fc, 0xc12c, 0xd654, 0xc804, 0xc1c4, 0xd611, 0xc870, 0xb77d, 0xba85, 0xc7c1, 0xc0c9,
	0xad50, 0xc758, 0xc0b0, 0xcd1d, 0xd0d5, 0xc548, 0xc740, 0xc5ec, 0xc8fc, 0xb85c, 0xd3ec, 0xc5b4, 0xb798, 0xd2b9, 0xb828, 0xac31,
	0xc18c, 0xc1c4, 0xb9ac, 0xc815, 0xc11c, 0xacfc, 0xace0, 0xcca0, 0xc218, 0xc88c, 0xb82c, 0xbd09, 0xc790, 0xb958, 0xac1c, 0xac04,
	0xc608, 0xc81c, 0xb791, 0xce68, 0xad6d, 0xc544, 0xcc3d, 0xd0c0, 0xcca8, 0xcc29, 0xbb18, 0xbd84, 0xae30, 0xb4dd, 0xacfc, 0xace4,
	0xcc3d, 0xc11d, 0xace0, 0xb77c, 0xcd94, 0xcd94, 0xae08, 0xc9c8, 0xd754, 0xad8c, 0xd640, 0xbd80, 0xb2f4, 0xc815, 0xac70, 0xac70,
	0xb9f9, 0xce58, 0xacc4, 0xc601, 0xac1c, 0xc7a5, 0xc1a1, 0xc545, 0xc0bd, 0xcd08, 0xc885, 0xb2e8, 0xc218, 0xad49, 0xd658, 0xc560,
	0xb3c4, 0xbbf8, 0xb8e8, 0xc790, 0xbe44, 0xbbf8, 0xb9c9, 0xc9c4, 0xbc15, 0xb825, 0xc12d, 0xb2f9, 0xc804, 0xc5bc, 0xb098, 0xb958,
	0xd638, 0xbc29, 0xc77c, 0xac00, 0xbe48, 0xc6a9, 0xd45c, 0xb2f9, 0xb9cc, 0xb77c, 0xbd95, 0xc6a9, 0xacbd, 0xc801, 0xc871, 0xc120,
	0xb958, 0xc2ec, 0xad90, 0xb8cc, 0xbc15, 0xb178, 0xb300, 0xb780, 0xbcf4, 0xcc2c, 0xac15, 0xb4f1, 0xd655, 0xb8b0, 0xd658, 0xd0c1,
	0xb834, 0xc758, 0xcc30, 0xd45c, 0xb78d, 0xcc38, 0xc591, 0xc7a5, 0xc7a5, 0xad6c, 0xc624, 0xc808, 0xad74, 0xb8cc, 0xbbf8, 0xc7a5,
	0xbb38, 0xb9d0, 0xc0b0, 0xc12c, 0xd639, 0xbb38, 0xc5fc, 0xd3d0, 0xd55c, 0xd3d0, 0xc0b0, 0xac1c, 0xd56d, 0xd33d, 0xad49, 0xc724,
	0xc0bc, 0xd55c, 0xd55c, 0xac04, 0xbbfc, 0xd558, 0xc218, 0xb450, 0xac11, 0xb1e8, 0xcca8, 0xd3c9, 0xd558, 0xb839, 0xbcc0, 0xbe44,
	0xc724, 0xc560, 0xad00, 0xac01, 0xd569, 0xbc8c, 0xcd95, 0xd64d, 0xaddc, 0xbbfc, 0xc11c, 0xace4, 0xb791, 0xb824, 0xc815, 0xc0ac,
	0xad6d, 0xc5f4, 0xc5f4, 0xcc9c, 0xaca9, 0xb9b0, 0xcc3d, 0xc0b4, 0xace4, 0xc5c4, 0xbb38, 0xc5fc, 0xc54c, 0xd63c, 0xc5ed, 0xbb38,
	0xd56d, 0xd3ec, 0xd56d, 0xaca9, 0xc694, 0xbb38, 0xbc18, 0xc554, 0xc704, 0xc778, 0xd65c, 0xacb0, 0xb780, 0xb3c4, 0xcc9c, 0xd33d,
	0xc804, 0xc5bc, 0xd0d1, 0xac1c, 0xd569, 0xad90, 0xd2c8, 0xad00, 0xd22c, 0xacc4, 0xaddc, 0xb2f9, 0xad00, 0xd45c, 0xd568, 0xd761,
	0xada4, 0xcc9c, 0xbcbd, 0xb2f9, 0xd658, 0xb2ec, 0xc628, 0xc6d0, 0xbb38, 0xc0b0, 0xc12c, 0xc5fc, 0xd55c, 0xd3d0, 0xbb38, 0xd2c8,
	0xc724, 0xc704, 0xd55c, 0xad49, 0xac04, 0xbbfc, 0xd56d, 0xbbfc, 0xac11, 0xb1e8, 0xaddc, 0xbb38, 0xb2ec, 0xbbfc, 0xb824, 0xac1c,
	0xbc8c, 0xac01, 0xc560, 0xace4, 0xad6c, 0xc5f4, 0xb791, 0xb3c4, 0xc5ed, 0xc5c4, 0xcc3d, 0xd601, 0xbb38, 0xd63c, 0xc5fc, 0xc54c,
	0xcc9c, 0xb780, 0xaca9, 0xada4, 0xd65c, 0xacb0, 0xd569, 0xc804, 0xd0d1, 0xad90, 0xd568, 0xd658, 0xbd80, 0xbd80, 0xb975, 0xb300,
	0xc2e0, 0xcc9c, 0xc62c, 0xac1c, 0xce58, 0xc74c, 0xc591, 0xb450, 0xc561, 0xc2b9, 0xd310, 0xbc30, 0xac31, 0xc724, 0xc644, 0xc9c0,
	0xbe44, 0xc815, 0xbc29, 0xc591, 0xc74c, 0xc9c4, 0xacc4, 0xc815, 0xc561, 0xac70, 0xc800, 0xc870, 0xc870, 0xc810, 0xb839, 0xc544,
	0xd0c0, 0xd0c0, 0xd53c, 0xbcd1, 0xbd80, 0xc81c, 0xb959, 0xb871, 0xc9c4, 0xd615, 0xce58, 0xb8e8, 0xb9e5, 0xac15, 0xc218, 0xd0c0,
	0xd55c, 0xc774, 0xada4, 0xc6b0, 0xd574, 0xd569, 0xc900, 0xcd08, 0xd615, 0xc21c, 0xbd80, 0xd3d0, 0xd569, 0xc12c, 0xc2b9, 0xcc99,
	0xd3ec, 0xb450, 0xc6d0, 0xc9c4, 0xc81c, 0xd568, 0xb3c4, 0xb0a0, 0xc6b4, 0xd5d8, 0xbc30, 0xbe44, 0xcd94, 0xae30, 0xd1f4, 0xb95c,
	0xc74c, 0xad6d, 0xc218, 0xc9c4, 0xbe44, 0xb989, 0xb3c4, 0xd568, 0xb959, 0xc2b9, 0xd5d8, 0xc778, 0xc800, 0xc591, 0xc789, 0xd611,
	0xc911, 0xc5b8, 0xc74c, 0xc720, 0xc81c, 0xc6b0, 0xb96d, 0xc704, 0xc678, 0xc5bc, 0xb300, 0xc218, 0xc554, 0xd669, 0xacc4, 0xc218,
	0xc740, 0xae30, 0xc5c4, 0xd734, 0xaca9, 0xc6b4, 0xc624, 0xc678, 0xc560, 0xadf9, 0xb2f9, 0xc81c, 0xc7a5, 0xb3c4, 0xc624, 0xadf9,
	0xc740, 0xc0b0, 0xc694, 0xb9b0, 0xd1f4, 0xb4f1, 0xbe44, 0xc218, 0xc218, 0xc624, 0xd5d8, 0xbd84, 0xb2c8, 0xc774, 0xc81c, 0xb3c4,
	0xc2b5, 0xc740, 0xcc99, 0xd734, 0xb871, 0xd76c, 0xc774, 0xb840, 0xb840, 0xcd94, 0xac01, 0xcc99, 0xc900, 0xc804, 0xb09c, 0xc775,
	0xc791, 0xc548, 0xae08, 0xacac, 0xc6c5, 0xc544, 0xc9d1, 0xace0, 0xd658, 0xce58, 0xad6c, 0xc900, 0xc790, 0xc639, 0xc800, 0xcd94,
	0xd638, 0xc7a1, 0xb77d, 0xc5ec, 0xc218, 0xc870, 0xc218, 0xd55c, 0xd655, 0xc30d, 0xad00, 0xcd94, 0xc7a1, 0xc639, 0xacc4, 0xd734,
	0xc218, 0xb958, 0xb9ac, 0xb09c, 0xd559, 0xc7a1, 0xc9d1, 0xc9d1, 0xc6b0, 0xc6b0, 0xc124, 0xb194, 0xbd80, 0xc0bd, 0xbaa9, 0xbb38,
	0xbd84, 0xbc29, 0xc6b4, 0xb825, 0xb9bd, 0xc559, 0xb839, 0xb8b0, 0xc554, 0xbc15, 0xbabd, 0xc804, 0xd0d5, 0xd638, 0xbb34, 0xc870,
	0xc218, 0xc81c, 0xbaa9, 0xce68, 0xc18c, 0xc0bd, 0xc815, 0xc9c4, 0xd328, 0xb9e4, 0xb839, 0xcc98, 0xc8fc, 0xacfd, 0xc0bd, 0xbe44,
	0xd64d, 0xc810, 0xc74c, 0xc608, 0xc8fc, 0xb454, 0xb9bc, 0xb839, 0xb3d9, 0xc601, 0xbb34, 0xb839, 0xc0c1, 0xb839, 0xd558, 0xd64d,
	0xc74c, 0xb9e5, 0xb9e5, 0xc6b4, 0xb958, 0xbabd, 0xbe48, 0xbb34, 0xc704, 0xd655, 0xc74c, 0xc2b5, 0xc775, 0xc560, 0xb2f4, 0xb4f1,
	0xc0b0, 0xd73c, 0xb85c, 0xb96d, 0xccb4, 0xc999, 0xbc29, 0xc591, 0xd328, 0xbcbd, 0xbbf8, 0xd48d, 0xd76c, 0xc81c, 0xb9e4, 0xbabd,
	0xbabd, 0xb8b0, 0xb825, 0xd655, 0xc560, 0xbe44, 0xccb4, 0xb871, 0xb839, 0xc560, 0xd48d, 0xb825, 0xbcf4, 0xc791, 0xc870, 0xd559,
	0xbe59, 0xccad, 0xccad, 0xc815, 0xcc9c, 0xc9c4, 0xc815, 0xc815, 0xc815, 0xc815, 0xc815, 0xc804, 0xc815, 0xcc9c, 0xbe44, 0xbe44,
	0xace0, 0xbbf8, 0xba74, 0xba74, 0xd3ec, 0xc5fd, 0xc804, 0xd68c, 0xc5fd, 0xd601, 0xc815, 0xcc44, 0xac04, 0xc778, 0xc801, 0xb3c4,
	0xc62c, 0xc778, 0xae08, 0xadfc, 0xd654, 0xb274, 0xd30c, 0xc778, 0xc0bd, 0xb0a9, 0xb9d0, 0xc870, 0xb2ec, 0xbc18, 0xc608, 0xc694,
	0xb3c4, 0xd53c, 0xac08, 0xad49, 0xd3ec, 0xc559, 0xbcd1, 0xc778, 0xd611, 0xb3c4, 0xae38, 0xd61c, 0xc548, 0xc548, 0xd754, 0xacf5,
	0xd558, 0xb2ec, 0xad50, 0xc815, 0xb9cc, 0xacbd, 0xc1e0, 0xc870, 0xcd08, 0xd604, 0xacf5, 0xbd09, 0xd0d1, 0xc7a5, 0xbe44, 0xacfd,
	0xad6d, 0xb78d, 0xc12d, 0xc720, 0xbc29, 0xc555, 0xcd94, 0xcd94, 0xac08, 0xcd08, 0xbb34, 0xad6d, 0xac74, 0xd3b8, 0xc81c, 0xcc9c,
	0xc628, 0xb3c4, 0xad6c, 0xd0d1, 0xbe44, 0xd61c, 0xbc18, 0xaca9, 0xd544, 0xacfd, 0xb2f9, 0xb8e8, 0xada4, 0xad50, 0xd654, 0xae30,
	0xcc9c, 0xac15, 0xcca8, 0xb2ec, 0xd68d, 0xd604, 0xcc9c, 0xb3c5, 0xb9d0, 0xcc9c, 0xb780, 0xc704, 0xc778, 0xbd88, 0xb9e4, 0xad8c,
	0xac11, 0xc704, 0xcd08, 0xd55c, 0xd560, 0xb3c8, 0xc720, 0xc6b4, 0xc12d, 0xc704, 0xc704, 0xbc30, 0xb3c4, 0xad6c, 0xc628, 0xace0,
	0xd544, 0xc704, 0xd61c, 0xb3c5, 0xb9d0, 0xb3c5, 0xc704, 0xc778, 0xbd88, 0xd55c, 0xc704, 0xc628, 0xb3c4, 0xad6c, 0xad6c, 0xad6c,
	0xd574, 0xc12c, 0xc81c, 0xc74c, 0xc7a1, 0xc6b4, 0xc18c, 0xb825, 0xbd09, 0xd669, 0xc601, 0xc6b4, 0xbd09, 0xc554, 0xc74c, 0xd5a5,
	0xd638, 0xd608, 0xc815, 0xacbd, 0xaddc, 0xd56d, 0xc21c, 0xc548, 0xc218, 0xc774, 0xc6b1, 0xc640, 0xc1a1, 0xaddc, 0xae30, 0xd56d,
	0xc608, 0xc644, 0xbc18, 0xb3c8, 0xc801, 0xc810, 0xbc18, 0xd30c, 0xb839, 0xcc45, 0xacbd, 0xb8b0, 0xd569, 0xad50, 0xc54c, 0xc561,
	0xc704, 0xd790, 0xad04, 0xc2e0, 0xc774, 0xc774, 0xd574, 0xd1f4, 0xd3b8, 0xbcd1, 0xb8b0, 0xbd80, 0xd611, 0xb450, 0xd68c, 0xaddc,
	0xd611, 0xb784, 0xc815, 0xc815, 0xc601, 0xad70, 0xd639, 0xc554, 0xacbd, 0xd1f4, 0xd1f4, 0xbe48, 0xb8b0, 0xd1f4, 0xc790, 0xc790,
	0xcd94, 0xc815, 0xb8b0, 0xb2f4, 0xd568, 0xac04, 0xacfc, 0xcdcc, 0xacbd, 0xae08, 0xc774, 0xc2dc, 0xc81c, 0xc561, 0xc545, 0xc548,
	0xc6d0, 0xd568, 0xc639, 0xc804, 0xc548, 0xd604, 0xc2e0, 0xc758, 0xc6d0, 0xc0c1, 0xc804, 0xc804, 0xac15, 0xace8, 0xb958, 0xb8cc,
	0xd45c, 0xc758, 0xb9cc, 0xcd95, 0xd6a8, 0xd638, 0xcd08, 0xace0, 0xc190, 0xc5c4, 0xd6fc, 0xc804, 0xc720, 0xd6d9, 0xbe48, 0xd604,
	0xbe48, 0xb85c, 0xb78c, 0xc12d, 0xad00, 0xd608, 0xc815, 0xacbd, 0xc548, 0xd56d, 0xc21c, 0xc218, 0xc6b1, 0xc644, 0xace0, 0xb3c8,
	0xae30, 0xbc18, 0xc1a1, 0xd56d, 0xc608, 0xb85c, 0xb839, 0xd30c, 0xacbd, 0xd790, 0xd611, 0xc815, 0xd569, 0xc601, 0xacbd, 0xd574,
	0xc774, 0xbe48, 0xd68c, 0xd1f4, 0xc554, 0xc601, 0xc601, 0xacfc, 0xc81c, 0xc639, 0xc545, 0xc804, 0xc548, 0xc561, 0xc12d, 0xb9cc,
	0xc804, 0xc0c1, 0xd638, 0xb8b0, 0xc804, 0xc720, 0xbe48, 0xad00, 0xd48d, 0xd45c, 0xd48d, 0xbd80, 0xd558, 0xc810, 0xbc15, 0xc0bd,
	0xd0dc, 0xd0dc, 0xb82c, 0xad04, 0xc120, 0xc18c, 0xad6c, 0xd45c, 0xc2dc, 0xc704, 0xc591, 0xc694, 0xc218, 0xac1c, 0xc18c, 0xbc94,
	0xb958, 0xc2b5, 0xb8cc, 0xd45c, 0xd45c, 0xb958, 0xd45c, 0xd45c, 0xd45c, 0xb8cc, 0xd45c, 0xc2e4, 0xd48d, 0xd734, 0xd48d, 0xc591,
	0xc810, 0xbc15, 0xc0bd, 0xad6c, 0xc2dc, 0xc218, 0xc694, 0xb958, 0xd45c, 0xd45c, 0xd45c, 0xbe44, 0xbc88, 0xbe44, 0xbe44, 0xc2dd,
	0xc2dd, 0xc190, 0xae30, 0xc815, 0xc0ac, 0xd0c1, 0xc804, 0xc190, 0xd5a5, 0xb3c8, 0xc784, 0xc5b4, 0xad8c, 0xce59, 0xc74c, 0xbc18,
	0xbc18, 0xc190, 0xc74c, 0xc8fc, 0xc774, 0xc791, 0xd544, 0xc790, 0xb3c4, 0xb958, 0xc790, 0xcca0, 0xc0ac, 0xd3ec, 0xc2dd, 0xb3cc,
	0xd574, 0xc784, 0xcca8, 0xad50, 0xd611, 0xbcd1, 0xc694, 0xb3d9, 0xc790, 0xd5a5, 0xc591, 0xad8c, 0xc774, 0xc5fc, 0xb77d, 0xc758,
	0xcc2c, 0xbc1c, 0xb1cc, 0xc544, 0xd3ec, 0xc900, 0xb450, 0xc18d, 0xc5ec, 0xd76c, 0xd6a8, 0xd63c, 0xacfc, 0xc2dd, 0xc804, 0xccb4,
	0xbcd1, 0xd568, 0xbd80, 0xc5c5, 0xb2f4, 0xbe44, 0xc7a5, 0xc704, 0xad00, 0xc5b5, 0xb09c, 0xc6b4, 0xd638, 0xd669, 0xcca0, 0xd6fc,
	0xc804, 0xd6c4, 0xc560, 0xb2f9, 0xbd84, 0xc704, 0xace8, 0xc0ac, 0xc1a1, 0xb2f9, 0xbc15, 0xace0, 0xd76c, 0xada4, 0xb958, 0xc218,
	0xb3c4, 0xc5fd, 0xc628, 0xb9c9, 0xb2f9, 0xb9cc, 0xd544, 0xc5b4, 0xc218, 0xadfc, 0xc0b0, 0xada4, 0xcc2c, 0xc120, 0xd76c, 0xb2f4,
	0xc758, 0xae30, 0xc694, 0xc7c1, 0xc639, 0xb3c4, 0xc608, 0xd5a5, 0xc804, 0xbd84, 0xd574, 0xbabd, 0xc5fc, 0xb9c8, 0xcc38, 0xc591,
	0xb77c, 0xcc2c, 0xb0ad, 0xc2dd, 0xc815, 0xae30, 0xd0c1, 0xb2f9, 0xb3c8, 0xd76c, 0xc784, 0xc5b4, 0xce59, 0xbc18, 0xc74c, 0xc804,
	0xc2dd, 0xd3ec, 0xc0ac, 0xb3cc, 0xc774, 0xc774, 0xc694, 0xd5a5, 0xd611, 0xb77d, 0xad50, 0xc758, 0xbcd1, 0xbc1c, 0xb450, 0xc544,
	0xc5ec, 0xb1cc, 0xc900, 0xacfc, 0xd63c, 0xd568, 0xad00, 0xc0ac, 0xada4, 0xace8, 0xc218, 0xcc38, 0xc5fd, 0xb9c9, 0xbc15, 0xb958,
	0xc218, 0xadfc, 0xb9cc, 0xc0b0, 0xcc2c, 0xc591, 0xc218, 0xaddc, 0xad35, 0xd5a5, 0xbd84, 0xbc1c, 0xb2c8, 0xd544, 0xbc1c, 0xb3c4,
	0xd568, 0xbe44, 0xc804, 0xc554, 0xc560, 0xbcf5, 0xd610, 0xc628, 0xd615, 0xbd84, 0xbe48, 0xd765, 0xb9c8, 0xc5b4, 0xd48d, 0xac04,
	0xc801, 0xd0c0, 0xd0c1, 0xce58, 0xc21c, 0xc8fc, 0xc9c0, 0xd328, 0xadfc, 0xc77c, 0xc0bd, 0xc724, 0xbb38, 0xce69, 0xb2f4, 0xb824,
	0xc6b0, 0xbc15, 0xbcf4, 0xacb0, 0xd0dc, 0xc5ed, 0xad6c, 0xbb38, 0xad6c, 0xacbd, 0xd30c, 0xc870, 0xc6d0, 0xd3c9, 0xcd94, 0xac70,
	0xc8fc, 0xb178, 0xad6c, 0xbe44, 0xc7a5, 0xac00, 0xb839, 0xc9c4, 0xd0dc, 0xbd80, 0xc559, 0xc0ac, 0xd544, 0xd0c0, 0xd0c0, 0xc0ac,
	0xb958, 0xb9e4, 0xbcc0, 0xc870, 0xce58, 0xc735, 0xb4f1, 0xb3d9, 0xc21c, 0xc804, 0xc2e0, 0xacbd, 0xc774, 0xd574, 0xbc15, 0xc8fc,
	0xc778, 0xb77d, 0xc8fc, 0xb2e8, 0xd574, 0xb958, 0xad6d, 0xc1a1, 0xce68, 0xbc29, 0xb791, 0xd55c, 0xb3c4, 0xd604, 0xd0dc, 0xc900,
	0xc544, 0xbe59, 0xc131, 0xc560, 0xb85d, 0xcd94, 0xc8fc, 0xc0ac, 0xbcd1, 0xace4, 0xb3c4, 0xb798, 0xc885, 0xacfc, 0xae30, 0xae30,
	0xd5d8, 0xbe44, 0xc18c, 0xd5d8, 0xac08, 0xc694, 0xbb34, 0xd3b8, 0xcd1d, 0xd3b8, 0xc804, 0xbe44, 0xd669, 0xac74, 0xd68d, 0xc720,
	0xc81c, 0xc804, 0xd558, 0xc885, 0xc885, 0xc720, 0xc0ac, 0xc65c, 0xd0c4, 0xadc0, 0xc218, 0xac74, 0xc2b9, 0xc990, 0xb958, 0xd33d,
	0xb4f1, 0xd61c, 0xcd08, 0xb3c5, 0xc548, 0xc6d0, 0xcd94, 0xc18c, 0xc120, 0xb824, 0xce58, 0xc0c1, 0xb85d, 0xc2b5, 0xb77c, 0xc7a5,
	0xb9e5, 0xc624, 0xcc38, 0xd45c, 0xcd1d, 0xad6c, 0xd544, 0xc9c0, 0xc728, 0xd5c8, 0xd654, 0xbc1c, 0xc219, 0xd6a8, 0xb9b0, 0xc794,
	0xb3c8, 0xb958, 0xd0c4, 0xc99d, 0xb2f4, 0xad50, 0xcca0, 0xd5d8, 0xb77c, 0xb2e8, 0xacbd, 0xc5ed, 0xc5c5, 0xd0c1, 0xbe48, 0xcde8,
	0xc5f0, 0xb8e1, 0xb824, 0xb4f1, 0xc591, 0xae30, 0xc0c1, 0xad6d, 0xd734, 0xd658, 0xb824, 0xd45c, 0xb9c8, 0xc5b4, 0xd0c0, 0xc21c,
	0xce58, 0xad6c, 0xc77c, 0xbc15, 0xb824, 0xc7a5, 0xc0ac, 0xc0ac, 0xbd80, 0xad6c, 0xcd94, 0xc8fc, 0xd0c0, 0xb178, 0xac00, 0xc5ed,
	0xd0dc, 0xd6a8, 0xb9e4, 0xc778, 0xad50, 0xd654, 0xb77d, 0xd574, 0xbcc0, 0xd45c, 0xb824, 0xbe59, 0xd5d8, 0xc131, 0xce68, 0xc900,
	0xae30, 0xae30, 0xacfc, 0xcd94, 0xc885, 0xc219, 0xcc38, 0xd3b8, 0xc990, 0xc885, 0xc18c, 0xbb34, 0xc624, 0xb958, 0xac74, 0xc120,
	0xd45c, 0xb77c, 0xcd1d, 0xc794, 0xcde8, 0xae30, 0xc0c1, 0xc591, 0xace8, 0xc704, 0xc704, 0xc704, 0xc6b0, 0xd55c, 0xc775, 0xd56d,
	0xd22c, 0xac08, 0xbc15, 0xd53c, 0xc790, 0xccb4, 0xc800, 0xace0, 0xd574, 0xad50, 0xd6c4, 0xacfc, 0xaca9, 0xd1f4, 0xacbd, 0xbcc0,
	0xbe44, 0xacfc, 0xac00, 0xc6b0, 0xc218, 0xb8e8, 0xbc15, 0xd6a8, 0xbc29, 0xbc15, 0xc790, 0xad00, 0xbe48, 0xb9c8, 0xb8cc, 0xb8e8,
	0xd6a8, 0xcd09, 0xc7a5, 0xc218, 0xccb4, 0xbe48, 0xad00, 0xb85c, 0xace0, 0xace0, 0xace0, 0xace0, 0xad50, 0xb85c, 0xc870, 0xd45c,
	0xace4, 0xace4, 0xccb4, 0xbc29, 0xd734, 0xc5fc, 0xbaa8, 0xb2f4, 0xace4, 0xbe48, 0xbc1c, 0xcd08, 0xbe44, 0xc790, 0xbc1c, 0xc5fc,
	0xccb4, 0xd3ec, 0xd53c, 0xbb34, 0xbd88, 0xc774, 0xc6a9, 0xace1, 0xacf5, 0xd734, 0xad04, 0xacc4, 0xbd09, 0xc88c, 0xc18c, 0xc0ac,
	0xccb4, 0xb9ac, 0xbe48, 0xc885, 0xccb4, 0xbd95, 0xc1a1, 0xc7c1, 0xad8c, 0xc885, 0xc21c, 0xc804, 0xcd94, 0xd638, 0xb784, 0xcd94,
	0xae30, 0xb834, 0xc9c4, 0xbe48, 0xbd09, 0xb9c8, 0xc0bc, 0xb9cc, 0xb9cc, 0xc2b9, 0xc218, 0xb9cc, 0xac04, 0xac04, 0xb18d, 0xd658,
	0xad04, 0xb155, 0xbe48, 0xb835, 0xc591, 0xb450, 0xd22c, 0xb8cc, 0xd64d, 0xd601, 0xd22c, 0xd568, 0xd22c, 0xd22c, 0xad6c, 0xcc3d,
	0xc6b8, 0xc6b8, 0xaca9, 0xad8c, 0xbd80, 0xc2ec, 0xaddc, 0xc885, 0xb958, 0xaddc, 0xc0c1, 0xc8fd, 0xadc0, 0xb9e4, 0xae30, 0xae30,
	0xac1c, 0xad34, 0xd63c, 0xbc1c, 0xbc31, 0xb9e4, 0xd6cc, 0xc5fc, 0xc18c, 0xb7c9, 0xc5ed, 0xcd94, 0xae30, 0xb9dd, 0xb7c9, 0xc704,
	0xac10, 0xb9ac, 0xd45c, 0xd544, 0xb9c8, 0xae30, 0xd5c8, 0xc218, 0xc5fc, 0xcc38, 0xc5b4, 0xb3c4, 0xc778, 0xacb0, 0xc785, 0xd64d,
	0xd0c1, 0xc870, 0xae30, 0xc11c, 0xd654, 0xac81, 0xc0ac, 0xd56d, 0xb3c8, 0xb9d0, 0xac1c, 0xc2ec, 0xbc18, 0xc6d0, 0xbe44, 0xb85c,
	0xbb38, 0xd638, 0xb85c, 0xc0ac, 0xbc29, 0xbd84, 0xb0a9, 0xc6b0, 0xd3b8, 0xbaa8, 0xac00, 0xd569, 0xd5c8, 0xd568, 0xbe44, 0xb839,
	0xd0c0, 0xbc1c, 0xc218, 0xd3c9, 0xbd88, 0xd544, 0xc81c, 0xbbf8, 0xad6c, 0xc870, 0xbc31, 0xc720, 0xace4, 0xd53c, 0xc810, 0xc131,
	0xd0dc, 0xd3ec, 0xbd80, 0xc790, 0xac70, 0xace0, 0xc11d, 0xb3d9, 0xb300, 0xd0d1, 0xae38, 0xc219, 0xd6c4, 0xc0c1, 0xc774, 0xc548,
	0xc678, 0xc870, 0xc8fc, 0xc778, 0xb82c, 0xb77d, 0xb3d9, 0xc81c, 0xc9c0, 0xbcd1, 0xc720, 0xad50, 0xbcf4, 0xd574, 0xc120, 0xd569,
	0xd68c, 0xb85c, 0xbcf5, 0xace0, 0xd734, 0xd0c8, 0xad70, 0xc81c, 0xba74, 0xc18c, 0xc790, 0xc0ac, 0xce68, 0xc5ec, 0xb1cc, 0xcca9,
	0xace4, 0xacbd, 0xc18c, 0xc6b0, 0xad6c, 0xc120, 0xd3ec, 0xd658, 0xc870, 0xb9ac, 0xc0ac, 0xc0ac, 0xace0, 0xbab8, 0xc131, 0xb9ac,
	0xc8fc, 0xd76c, 0xc6a9, 0xc2e0, 0xce58, 0xae30, 0xccad, 0xc0c1, 0xb1cc, 0xc21c, 0xacc4, 0xc870, 0xcca9, 0xace0, 0xcd94, 0xb3d9,
	0xb798, 0xbe44, 0xc608, 0xc5ed, 0xace4, 0xb959, 0xad6c, 0xcc3d, 0xacbd, 0xb95c, 0xb989, 0xcd94, 0xb9ac, 0xb9f9, 0xc885, 0xc81c,
	0xc5fc, 0xd638, 0xc5b4, 0xc800, 0xc2ac, 0xc18c, 0xd63c, 0xc81c, 0xd6c4, 0xc131, 0xb2e4, 0xb784, 0xc885, 0xc989, 0xd3b8, 0xd3b8,
	0xd658, 0xcc9c, 0xc989, 0xc678, 0xc704, 0xc639, 0xcd98, 0xc720, 0xc811, 0xd669, 0xb828, 0xc5b8, 0xcd94, 0xcd94, 0xac74, 0xbcbd,
	0xc545, 0xc591, 0xbcf5, 0xc0c8, 0xd568, 0xd558, 0xd0c0, 0xd638, 0xc2e4, 0xc57d, 0xc120, 0xc628, 0xacb8, 0xd638, 0xc624, 0xbc29,
	0xc18c, 0xb958, 0xb9c8, 0xc2dc, 0xc0ac, 0xd658, 0xc790, 0xb4f1, 0xd0d1, 0xc694, 0xc555, 0xc6a9, 0xac74, 0xae30, 0xc628, 0xc57d,
	0xc2e0, 0xb828, 0xc624, 0xb975, 0xd718, 0xbbfc, 0xc81c, 0xc870, 0xad6c, 0xacac, 0xc18c, 0xb9cc, 0xc2b5, 0xc218, 0xd45c, 0xc801,
	0xae30, 0xcd95, 0xc7a5, 0xcd94, 0xc804, 0xc6a9, 0xc7a5, 0xac15, 0xc124, 0xbcc4, 0xc728, 0xac70, 0xc0c1, 0xbc1c, 0xad50, 0xc2ec,
	0xc219, 0xd669, 0xc900, 0xc120, 0xc120, 0xbc88, 0xad90, 0xb9b0, 0xc2ec, 0xbb18, 0xd76c, 0xc99d, 0xd5a5, 0xbd84, 0xd658, 0xd6c4,
	0xd68c, 0xc989, 0xc18c, 0xc804, 0xac10, 0xada4, 0xc2b9, 0xb840, 0xc0c1, 0xb8b0, 0xc11c, 0xc560, 0xc720, 0xc81c, 0xc11c, 0xd654,
	0xc11c, 0xb824, 0xb835, 0xb825, 0xba78, 0xce68, 0xc0c1, 0xc545, 0xb85c, 0xad00, 0xb824, 0xc120, 0xc5b4, 0xb3c4, 0xae30, 0xc6b0,
	0xb3c8, 0xb85c, 0xbc29, 0xd30c, 0xac00, 0xbc1c, 0xd3c9, 0xc810, 0xb85c, 0xc720, 0xc790, 0xbd80, 0xbc31, 0xd3ec, 0xd6c4, 0xd53c,
	0xd0dc, 0xd574, 0xae38, 0xace0, 0xc720, 0xc774, 0xb3d9, 0xc989, 0xd6c4, 0xd68c, 0xc81c, 0xad50, 0xc120, 0xc790, 0xc0c1, 0xc2ec,
	0xacbd, 0xb824, 0xb828, 0xacac, 0xb9ac, 0xc2dc, 0xc870, 0xace4, 0xc0ac, 0xd658, 0xad70, 0xc989, 0xc6a9, 0xccad, 0xb989, 0xae30,
	0xcd94, 0xbe44, 0xace4, 0xcc3d, 0xace0, 0xc608, 0xc5fc, 0xc870, 0xacbd, 0xc18c, 0xc2ac, 0xce58, 0xbd84, 0xc811, 0xbcbd, 0xc0c1,
	0xc81c, 0xc628, 0xc678, 0xc0c8, 0xc545, 0xcd94, 0xbcf5, 0xd669, 0xcc9c, 0xc7a5, 0xd3b8, 0xc18c, 0xc624, 0xae30, 0xd0d1, 0xd658,
	0xc694, 0xbc29, 0xacb8, 0xb975, 0xd45c, 0xc124, 0xbcc4, 0xb9cc, 0xbbfc, 0xc6a9, 0xc704, 0xc2b5, 0xad90, 0xc120, 0xb9b0, 0xc900,
	0xd654, 0xac10, 0xb840, 0xc804, 0xad00, 0xc870, 0xc744, 0xbd80, 0xb825, 0xad6c, 0xbcf5, 0xc548, 0xbd80, 0xb3c4, 0xacc4, 0xbd09,
	0xc785, 0xac04, 0xc2dc, 0xbd09, 0xba85, 0xbcf4, 0xc5f0, 0xc9c0, 0xd638, 0xae08, 0xbd80, 0xbc18, 0xbb38, 0xacac, 0xc0ac, 0xc625,
	0xbd80, 0xc694, 0xacb0, 0xaca9, 0xd544, 0xd658, 0xc9d0, 0xbcf4, 0xc548, 0xc544, 0xc815, 0xbc29, 0xbd09, 0xbb38, 0xad6c, 0xd2b9,
	0xac00, 0xb178, 0xb839, 0xba78, 0xd54d, 0xd0c0, 0xbbfc, 0xb9bd, 0xbcc0, 0xce58, 0xac00, 0xc6d0, 0xc790, 0xad6c, 0xd6a8, 0xce58,
	0xb2e8, 0xc800, 0xc694, 0xace0, 0xc885, 0xc728, 0xc559, 0xc728, 0xc555, 0xc77c, 0xc6a9, 0xc804, 0xd559, 0xd1f4, 0xc624, 0xc774,
	0xad04, 0xc560, 0xc9c0, 0xc548, 0xd589, 0xad50, 0xc54c, 0xb82c, 0xc8fc, 0xc591, 0xc81c, 0xd64d, 0xb77d, 0xc5ec, 0xbaa8, 0xd569,
	0xc784, 0xad50, 0xd734, 0xc8fc, 0xce58, 0xac01, 0xd589, 0xb144, 0xba85, 0xb780, 0xacb9, 0xae30, 0xb3c4, 0xd658, 0xd0c0, 0xd3ec,
	0xbb34, 0xacac, 0xc695, 0xbc1c, 0xc900, 0xc900, 0xac81, 0xd76c, 0xad70, 0xaca9, 0xb3c5, 0xacbd, 0xc81c, 0xc544, 0xc544, 0xad11,
	0xace1, 0xbb34, 0xc2e0, 0xb798, 0xac01, 0xd310, 0xb85d, 0xbcd1, 0xc11c, 0xbcf5, 0xc554, 0xd0c1, 0xbd95, 0xae08, 0xac10, 0xd544,
	0xc870, 0xb959, 0xc791, 0xacac, 0xad6d, 0xd1a0, 0xc544, 0xc6d0, 0xae30, 0xb824, 0xc57c, 0xcd94, 0xacf5, 0xd0c8, 0xace4, 0xc2b9,
	0xae30, 0xacbd, 0xc5ed, 0xc5ed, 0xccad, 0xce58, 0xb798, 0xb3d9, 0xcc98, 0xc21c, 0xacbd, 0xac70, 0xad74, 0xc774, 0xc885, 0xacc4,
	0xc220, 0xd615, 0xce59, 0xbb18, 0xc720, 0xc554, 0xcd94, 0xc81c, 0xd638, 0xc81c, 0xc545, 0xac1c, 0xbaa8, 0xbcf5, 0xcd98, 0xb3cc,
	0xc5b8, 0xac08, 0xc6d0, 0xd3b8, 0xace4, 0xbbf8, 0xd638, 0xc601, 0xb2e8, 0xbaa9, 0xaca9, 0xac04, 0xcc3d, 0xbc29, 0xd559, 0xc575,
	0xc6d0, 0xac74, 0xc639, 0xc0ac, 0xd559, 0xcd94, 0xb2f9, 0xd560, 0xc57d, 0xb958, 0xcc99, 0xace8, 0xacb8, 0xc900, 0xd55c, 0xc790,
	0xc790, 0xc775, 0xc694, 0xc548, 0xacc4, 0xb960, 0xc804, 0xad6c, 0xccb4, 0xccb4, 0xc5ed, 0xb3c4, 0xb9c8, 0xad50, 0xace0, 0xc804,
	0xc2e0, 0xae09, 0xb2e8, 0xc790, 0xc624, 0xc694, 0xc608, 0xad6c, 0xce59, 0xc9c0, 0xb958, 0xc6a9, 0xb8e8, 0xd544, 0xc0c1, 0xc791,
	0xc5b4, 0xbb34, 0xad90, 0xc74c, 0xb2e8, 0xc0ac, 0xcd08, 0xc77c, 0xd654, 0xbcc4, 0xc575, 0xc219, 0xd669, 0xbc88, 0xad50, 0xb8cc,
	0xc5f0, 0xace0, 0xcde8, 0xd55c, 0xd55c, 0xb3c4, 0xb9e4, 0xc900, 0xd73c, 0xc751, 0xb85c, 0xb2e8, 0xd55c, 0xd559, 0xc758, 0xbcbd,
	0xcd09, 0xb77c, 0xacc4, 0xc758, 0xaca9, 0xd0dd, 0xc6b0, 0xc804, 0xc5c5, 0xc591, 0xbcbd, 0xb155, 0xd655, 0xc2dc, 0xc575, 0xbabd,
	0xc801, 0xc545, 0xc5ec, 0xb958, 0xbcf5, 0xb85c, 0xd559, 0xb871, 0xc0c1, 0xc57d, 0xc575, 0xad00, 0xad6c, 0xb9ac, 0xb780, 0xc870,
	0xad6c, 0xacc4, 0xc5f0, 0xba85, 0xc2dc, 0xad6c, 0xc544, 0xcc3d, 0xbcf4, 0xc9d0, 0xace0, 0xb3d9, 0xb85c, 0xc555, 0xd6a8, 0xc559,
	0xb839, 0xce58, 0xad6c, 0xc6d0, 0xd559, 0xd0c0, 0xc0ac, 0xc9c0, 0xc774, 0xad04, 0xd734, 0xd589, 0xc8fc, 0xd569, 0xb780, 0xd64d,
	0xbb34, 0xbc1c, 0xb9ac, 0xacac, 0xace1, 0xc544, 0xc695, 0xd55c, 0xc81c, 0xbb34, 0xc791, 0xbb18, 0xc554, 0xace4, 0xd544, 0xbd95,
	0xac10, 0xc21c, 0xacbd, 0xc6d0, 0xc219, 0xd638, 0xac08, 0xc545, 0xace8, 0xcd94, 0xc790, 0xbbf8, 0xbaa9, 0xc5ed, 0xc694, 0xc5ed,
	0xc21c, 0xcc99, 0xc775, 0xacb8, 0xd559, 0xc608, 0xc575, 0xc790, 0xb958, 0xb8cc, 0xcd08, 0xcde8, 0xd73c, 0xb85c, 0xd658, 0xc804,
	0xc751, 0xd655, 0xbabd, 0xad00, 0xc0c1, 0xb85c, 0xae0d, 0xb839, 0xac10, 0xd568, 0xcc28, 0xac10, 0xac10, 0xc5fc, 0xcc28, 0xb85d,
	0xc6b0, 0xcd94, 0xada4, 0xd3ec, 0xcd94, 0xd3ec, 0xc870, 0xade0, 0xc8fc, 0xacac, 0xbbf8, 0xbbf8, 0xc6b0, 0xb958, 0xc2e0, 0xade0,
	0xb9b0, 0xc608, 0xae30, 0xb85d, 0xad6c, 0xade0, 0xacbd, 0xb824, 0xd5a5, 0xc554, 0xac00, 0xbbf8, 0xb960, 0xc0ac, 0xc7a5, 0xb9b0,
	0xacbd, 0xc81c, 0xb839, 0xc554, 0xcd94, 0xb9e5, 0xb9e5, 0xd758, 0xcd08, 0xbd80, 0xba74, 0xba74, 0xbd80, 0xd3ec, 0xac70, 0xad6d,
	0xbaa8, 0xbd80, 0xd55c, 0xb798, 0xad6d, 0xba74, 0xb9ac, 0xd48d, 0xbd80, 0xbd80, 0xba74, 0xb9c8, 0xb9c8, 0xb9c8, 0xd718, 0xb9c8,
	0xcd94, 0xd5a5, 0xbd84, 0xd669, 0xd669, 0xae08, 0xad11, 0xcca8, 0xc8fc, 0xd6a1, 0xaddc, 0xad11, 0xd6a1, 0xc11c, 0xb824, 0xc810,
	0xb9ac, 0xd751, 0xd751, 0xc775, 0xac80, 0xb2f4, 0xae30, 0xb3c8, 0xbb35, 0xbb35, 0xacb8, 0xb300, 0xcd9c, 0xc720, 0xc810, 0xc774,
	0xd790, 0xc5fc, 0xcd9c, 0xb9e4, 0xc554, 0xacbd, 0xc6b8, 0xb824, 0xb2f9, 0xb3c5, 0xcc38, 0xc548, 0xc554, 0xc554, 0xb2f4, 0xc554,
	0xc9c4, 0xb300, 0xcc38, 0xc608, 0xbbf8, 0xb2f4, 0xc5fc, 0xb3c5, 0xb85c, 0xce58, 0xbd84, 0xbd88, 0xbcf4, 0xbbfc, 0xbbfc, 0xc6d0,
	0xcd95, 0xac70, 0xc870, 0xc640, 0xc8fc, 0xc9c0, 0xb9f9, 0xc624, 0xbcc4, 0xd0c0, 0xbcbd, 0xc6d0, 0xc870, 0xd0c0, 0xc815, 0xba71,
	0xb0b4, 0xc815, 0xc790, 0xace0, 0xace0, 0xb3d9, 0xbd84, 0xb3c4, 0xc5f0, 0xbe44, 0xcc3d, 0xace0, 0xcc99, 0xc5f0, 0xb2f9, 0xb4f1,
	0xc11c, 0xc11c, 0xbd84, 0xd3d0, 0xbb38, 0xbc1c, 0xcd08, 0xd0c0, 0xc885, 0xad6c, 0xc0dd, 0xc11d, 0xc720, 0xc2dc, 0xc815, 0xc624,
	0xb144, 0xc815, 0xd63c, 0xaca9, 0xc5b8, 0xb3cc, 0xc0ac, 0xd61c, 0xacb8, 0xc5b8, 0xb8e8, 0xbe44, 0xaddc, 0xad6c, 0xd55c, 0xc62c,
	0xc62c, 0xd6c4, 0xd76c, 0xc54c, 0xc0ac, 0xd6c4, 0xc639, 0xcc28, 0xb18d, 0xb0ad, 0xc81c, 0xc7ac, 0xc81c, 0xc790, 0xc7ac, 0xc81c,
	0xc81c, 0xc81c, 0xce58, 0xce5c, 0xce5c, 0xd758, 0xc544, 0xc740, 0xacc4, 0xd3ec, 0xc0c9, 0xc138, 0xc7ac, 0xce58, 0xc5b8, 0xc800,
	0xcd08, 0xb839, 0xb839, 0xcc99, 0xad8c, 0xc138, 0xac04, 0xc124, 0xad6c, 0xad50, 0xcc29, 0xace4, 0xc5b4, 0xc18c, 0xae30, 0xc608,
	0xc0c9, 0xcd94, 0xc6b0, 0xc6b4, 0xc5b8, 0xc6b0, 0xc545, 0xc545, 0xc775, 0xcc28, 0xcd94, 0xc804, 0xcd08, 0xae08, 0xc54c, 0xce58,
	0xce5c, 0xd758, 0xc740, 0xc800, 0xb839, 0xd3ec, 0xcd08, 0xc7ac, 0xac04, 0xc5b4, 0xcc29, 0xc6b0, 0xc545, 0xb8e1, 0xb871, 0xacf5,
	0xbc29, 0xc5c4, 0xb8e1, 0xb871, 0xacf5, 0xac10, 0xb2f5, 0xb839, 0xb2f5, 0xb8e1, 0xacf5, 0xac10, 0xad6c, 0xcd94, 0xbcc4, 0xad6c,
	0xc57d, 0xcde8, 0xd654, 0xb85d, 0xd574, 0xc720, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0xc30d, 0xace1,
	0x0000, 0xae30, 0x0000, 0xbd80, 0xac70, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0xc54c,
	0x0000, 0xc0dd, 0x0000, 0xb450, 0xae09, 0x0000, 0x0000, 0xd6a8, 0xd589, 0xb3c4, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
}

// Order lists the supported hanja of KS X 1001 (but for the polyphonic ones) in its order.
var Order = [4607]uint16{
	0x4f3d, 0x4f73, 0x5047, 0x50f9, 0x52a0, 0x53ef, 0x5475, 0x54e5, 0x5609, 0x5ac1, 0x5bb6, 0x6687, 0x67b6, 0x67b7, 0x67ef, 0x6b4c,
	0x73c2, 0x75c2, 0x7a3c, 0x82db, 0x8304, 0x8857, 0x8888, 0x8a36, 0x8cc8, 0x8dcf, 0x8efb, 0x8fe6, 0x99d5, 0x523b, 0x5374, 0x5404,
	0x606a, 0x6164, 0x6bbc, 0x73cf, 0x811a, 0x89ba, 0x89d2, 0x95a3, 0x4f83, 0x520a, 0x58be, 0x5978, 0x59e6, 0x5e72, 0x5e79, 0x61c7,
	0x63c0, 0x6746, 0x67ec, 0x687f, 0x6f97, 0x764e, 0x770b, 0x78f5, 0x7a08, 0x7aff, 0x7c21, 0x809d, 0x826e, 0x8271, 0x8aeb, 0x9593,
	0x4e6b, 0x559d, 0x66f7, 0x6e34, 0x78a3, 0x7aed, 0x845b, 0x8910, 0x874e, 0x97a8, 0x52d8, 0x574e, 0x582a, 0x5d4c, 0x611f, 0x61be,
	0x6221, 0x6562, 0x67d1, 0x6a44, 0x6e1b, 0x7518, 0x75b3, 0x76e3, 0x77b0, 0x7d3a, 0x90af, 0x9451, 0x9452, 0x9f95, 0x5323, 0x5cac,
	0x7532, 0x80db, 0x9240, 0x9598, 0x525b, 0x5808, 0x59dc, 0x5ca1, 0x5d17, 0x5eb7, 0x5f3a, 0x5f4a, 0x6177, 0x6c5f, 0x757a, 0x7586,
	0x7ce0, 0x7d73, 0x7db1, 0x7f8c, 0x8154, 0x8221, 0x8591, 0x8941, 0x8b1b, 0x92fc, 0x964d, 0x9c47, 0x4ecb, 0x4ef7, 0x500b, 0x51f1,
	0x584f, 0x6137, 0x613e, 0x6168, 0x6539, 0x69ea, 0x6f11, 0x75a5, 0x7686, 0x76d6, 0x7b87, 0x82a5, 0x84cb, 0x93a7, 0x958b, 0x5580,
	0x5ba2, 0x5751, 0x7cb3, 0x7fb9, 0x91b5, 0x5028, 0x53bb, 0x5c45, 0x5de8, 0x62d2, 0x636e, 0x64da, 0x64e7, 0x6e20, 0x70ac, 0x795b,
	0x8ddd, 0x8e1e, 0x907d, 0x9245, 0x92f8, 0x4e7e, 0x4ef6, 0x5065, 0x5dfe, 0x5efa, 0x6106, 0x6957, 0x8171, 0x8654, 0x8e47, 0x9375,
	0x9a2b, 0x4e5e, 0x5091, 0x6770, 0x6840, 0x5109, 0x528d, 0x5292, 0x6aa2, 0x77bc, 0x9210, 0x9ed4, 0x52ab, 0x602f, 0x8ff2, 0x5048,
	0x61a9, 0x63ed, 0x64ca, 0x683c, 0x6a84, 0x6fc0, 0x8188, 0x89a1, 0x9694, 0x5805, 0x727d, 0x72ac, 0x7504, 0x7d79, 0x7e6d, 0x80a9,
	0x898b, 0x8b74, 0x9063, 0x9d51, 0x6289, 0x6c7a, 0x6f54, 0x7d50, 0x7f3a, 0x8a23, 0x517c, 0x614a, 0x7b9d, 0x8b19, 0x9257, 0x938c,
	0x4eac, 0x4fd3, 0x501e, 0x50be, 0x5106, 0x52c1, 0x52cd, 0x537f, 0x5770, 0x5883, 0x5e9a, 0x5f91, 0x6176, 0x61ac, 0x64ce, 0x656c,
	0x666f, 0x66bb, 0x66f4, 0x6897, 0x6d87, 0x7085, 0x70f1, 0x749f, 0x74a5, 0x74ca, 0x75d9, 0x786c, 0x78ec, 0x7adf, 0x7af6, 0x7d45,
	0x7d93, 0x8015, 0x803f, 0x811b, 0x8396, 0x8b66, 0x8f15, 0x9015, 0x93e1, 0x9803, 0x9838, 0x9a5a, 0x9be8, 0x4fc2, 0x5553, 0x583a,
	0x5951, 0x5b63, 0x5c46, 0x60b8, 0x6212, 0x6842, 0x68b0, 0x68e8, 0x6eaa, 0x754c, 0x7678, 0x78ce, 0x7a3d, 0x7cfb, 0x7e6b, 0x7e7c,
	0x8a08, 0x8aa1, 0x8c3f, 0x968e, 0x9dc4, 0x53e4, 0x53e9, 0x544a, 0x5471, 0x56fa, 0x59d1, 0x5b64, 0x5c3b, 0x5eab, 0x62f7, 0x6537,
	0x6545, 0x6572, 0x66a0, 0x67af, 0x69c1, 0x6cbd, 0x75fc, 0x7690, 0x777e, 0x7a3f, 0x7f94, 0x8003, 0x80a1, 0x818f, 0x82e6, 0x82fd,
	0x83f0, 0x85c1, 0x8831, 0x88b4, 0x8aa5, 0x8f9c, 0x932e, 0x96c7, 0x9867, 0x9ad8, 0x9f13, 0x54ed, 0x659b, 0x66f2, 0x688f, 0x7a40,
	0x8c37, 0x9d60, 0x56f0, 0x5764, 0x5d11, 0x6606, 0x68b1, 0x68cd, 0x6efe, 0x7428, 0x889e, 0x9be4, 0x6c68, 0x9aa8, 0x4f9b, 0x516c,
	0x5171, 0x529f, 0x5b54, 0x5de5, 0x6050, 0x606d, 0x62f1, 0x63a7, 0x653b, 0x73d9, 0x7a7a, 0x86a3, 0x8ca2, 0x978f, 0x5be1, 0x6208,
	0x679c, 0x74dc, 0x79d1, 0x83d3, 0x8a87, 0x8ab2, 0x8de8, 0x904e, 0x934b, 0x9846, 0x69e8, 0x85ff, 0x90ed, 0x51a0, 0x5b98, 0x5bec,
	0x6163, 0x68fa, 0x6b3e, 0x704c, 0x742f, 0x74d8, 0x7ba1, 0x7f50, 0x83c5, 0x89c0, 0x8cab, 0x95dc, 0x9928, 0x522e, 0x605d, 0x62ec,
	0x9002, 0x4f8a, 0x5149, 0x5321, 0x58d9, 0x5ee3, 0x66e0, 0x6d38, 0x709a, 0x72c2, 0x73d6, 0x7b50, 0x80f1, 0x945b, 0x5366, 0x639b,
	0x7f6b, 0x4e56, 0x5080, 0x584a, 0x58de, 0x602a, 0x6127, 0x62d0, 0x69d0, 0x9b41, 0x5b8f, 0x7d18, 0x80b1, 0x8f5f, 0x4ea4, 0x50d1,
	0x54ac, 0x55ac, 0x5b0c, 0x5da0, 0x5de7, 0x652a, 0x654e, 0x6821, 0x6a4b, 0x72e1, 0x768e, 0x77ef, 0x7d5e, 0x7ff9, 0x81a0, 0x854e,
	0x86df, 0x8f03, 0x8f4e, 0x90ca, 0x9903, 0x9a55, 0x9bab, 0x4e18, 0x4e45, 0x4e5d, 0x4ec7, 0x4ff1, 0x5177, 0x52fe, 0x5340, 0x53e3,
	0x53e5, 0x548e, 0x5614, 0x5775, 0x57a2, 0x5bc7, 0x5d87, 0x5ed0, 0x61fc, 0x62d8, 0x6551, 0x67b8, 0x67e9, 0x69cb, 0x6b50, 0x6bc6,
	0x6bec, 0x6c42, 0x6e9d, 0x7078, 0x72d7, 0x7396, 0x7403, 0x77bf, 0x77e9, 0x7a76, 0x7d7f, 0x8009, 0x81fc, 0x8205, 0x820a, 0x82df,
	0x8862, 0x8b33, 0x8cfc, 0x8ec0, 0x9011, 0x90b1, 0x9264, 0x92b6, 0x99d2, 0x9a45, 0x9ce9, 0x9dd7, 0x9f9c, 0x570b, 0x5c40, 0x83ca,
	0x97a0, 0x97ab, 0x9eb4, 0x541b, 0x7a98, 0x7fa4, 0x88d9, 0x8ecd, 0x90e1, 0x5800, 0x5c48, 0x6398, 0x7a9f, 0x5bae, 0x5f13, 0x7a79,
	0x7aae, 0x828e, 0x8eac, 0x5026, 0x5238, 0x52f8, 0x5377, 0x5708, 0x62f3, 0x6372, 0x6b0a, 0x6dc3, 0x7737, 0x53a5, 0x7357, 0x8568,
	0x8e76, 0x95d5, 0x673a, 0x6ac3, 0x6f70, 0x8a6d, 0x8ecc, 0x994b, 0x6677, 0x6b78, 0x8cb4, 0x9b3c, 0x53eb, 0x572d, 0x594e, 0x63c6,
	0x69fb, 0x73ea, 0x7845, 0x7aba, 0x7ac5, 0x7cfe, 0x8475, 0x898f, 0x8d73, 0x9035, 0x95a8, 0x52fb, 0x5747, 0x7547, 0x7b60, 0x83cc,
	0x921e, 0x6a58, 0x514b, 0x524b, 0x5287, 0x621f, 0x68d8, 0x6975, 0x9699, 0x50c5, 0x52a4, 0x52e4, 0x61c3, 0x65a4, 0x6839, 0x69ff,
	0x747e, 0x7b4b, 0x82b9, 0x83eb, 0x89b2, 0x8b39, 0x8fd1, 0x9949, 0x4eca, 0x5997, 0x64d2, 0x6611, 0x6a8e, 0x7434, 0x7981, 0x79bd,
	0x82a9, 0x887e, 0x887f, 0x895f, 0x9326, 0x4f0b, 0x53ca, 0x6025, 0x6271, 0x6c72, 0x7d1a, 0x7d66, 0x4e98, 0x5162, 0x77dc, 0x80af,
	0x4f01, 0x4f0e, 0x5176, 0x5180, 0x55dc, 0x5668, 0x573b, 0x57fa, 0x57fc, 0x5914, 0x5947, 0x5993, 0x5bc4, 0x5c90, 0x5d0e, 0x5df1,
	0x5e7e, 0x5fcc, 0x6280, 0x65d7, 0x65e3, 0x671e, 0x671f, 0x675e, 0x68cb, 0x68c4, 0x6a5f, 0x6b3a, 0x6c23, 0x6c7d, 0x6c82, 0x6dc7,
	0x7398, 0x7426, 0x742a, 0x7482, 0x74a3, 0x7578, 0x757f, 0x7881, 0x78ef, 0x7941, 0x7947, 0x7948, 0x797a, 0x7b95, 0x7d00, 0x7dba,
	0x7f88, 0x8006, 0x802d, 0x808c, 0x8a18, 0x8b4f, 0x8c48, 0x8d77, 0x9321, 0x9324, 0x98e2, 0x9951, 0x9a0e, 0x9a0f, 0x9a65, 0x9e92,
	0x7dca, 0x4f76, 0x5409, 0x62ee, 0x6854, 0x55ab, 0x513a, 0x5a1c, 0x61e6, 0x62ff, 0x90a3, 0x6696, 0x7156, 0x96e3, 0x634f, 0x637a,
	0x5357, 0x678f, 0x6960, 0x6e73, 0x7537, 0x7d0d, 0x8872, 0x56ca, 0x5a18, 0x4e43, 0x5167, 0x5948, 0x67f0, 0x8010, 0x5973, 0x5e74,
	0x649a, 0x79ca, 0x5ff5, 0x606c, 0x62c8, 0x637b, 0x5bd7, 0x52aa, 0x5974, 0x5f29, 0x7459, 0x99d1, 0x6fc3, 0x81bf, 0x8fb2, 0x60f1,
	0x8166, 0x5c3f, 0x5ae9, 0x8a25, 0x677b, 0x7d10, 0x80fd, 0x5c3c, 0x6ce5, 0x533f, 0x6eba, 0x591a, 0x8336, 0x4e39, 0x4eb6, 0x4f46,
	0x55ae, 0x5718, 0x58c7, 0x5f56, 0x65b7, 0x65e6, 0x6a80, 0x6bb5, 0x6e4d, 0x77ed, 0x7aef, 0x7c1e, 0x7dde, 0x86cb, 0x8892, 0x9132,
	0x935b, 0x64bb, 0x6fbe, 0x737a, 0x75b8, 0x9054, 0x5556, 0x61ba, 0x64d4, 0x66c7, 0x6de1, 0x6e5b, 0x6f6d, 0x6fb9, 0x75f0, 0x8043,
	0x81bd, 0x8541, 0x8983, 0x8ac7, 0x8b5a, 0x931f, 0x6c93, 0x7553, 0x7b54, 0x8e0f, 0x905d, 0x5510, 0x5802, 0x5858, 0x5e62, 0x6207,
	0x649e, 0x68e0, 0x7576, 0x7cd6, 0x87b3, 0x9ee8, 0x4ee3, 0x5788, 0x576e, 0x5927, 0x5c0d, 0x5cb1, 0x5e36, 0x5f85, 0x6234, 0x64e1,
	0x73b3, 0x81fa, 0x888b, 0x8cb8, 0x968a, 0x9edb, 0x5fb7, 0x60b3, 0x5012, 0x5200, 0x5230, 0x5716, 0x5835, 0x5857, 0x5c0e, 0x5c60,
	0x5cf6, 0x5d8b, 0x5ea6, 0x5f92, 0x60bc, 0x6311, 0x6389, 0x6417, 0x6843, 0x68f9, 0x6ac2, 0x6dd8, 0x6e21, 0x6ed4, 0x6fe4, 0x71fe,
	0x76dc, 0x7779, 0x79b1, 0x7a3b, 0x8404, 0x89a9, 0x8ced, 0x8df3, 0x8e48, 0x9003, 0x9014, 0x9053, 0x90fd, 0x934d, 0x9676, 0x97dc,
	0x6bd2, 0x7006, 0x7258, 0x72a2, 0x7368, 0x7763, 0x79bf, 0x7be4, 0x7e9b, 0x8b80, 0x58a9, 0x60c7, 0x6566, 0x65fd, 0x66be, 0x6c8c,
	0x711e, 0x71c9, 0x8c5a, 0x9813, 0x4e6d, 0x7a81, 0x4edd, 0x51ac, 0x51cd, 0x52d5, 0x540c, 0x61a7, 0x6771, 0x6850, 0x68df, 0x6d1e,
	0x6f7c, 0x75bc, 0x77b3, 0x7ae5, 0x80f4, 0x8463, 0x9285, 0x515c, 0x6597, 0x675c, 0x6793, 0x75d8, 0x7ac7, 0x8373, 0x8c46, 0x9017,
	0x982d, 0x5c6f, 0x81c0, 0x829a, 0x9041, 0x906f, 0x920d, 0x5f97, 0x5d9d, 0x6a59, 0x71c8, 0x767b, 0x7b49, 0x85e4, 0x8b04, 0x9127,
	0x9a30, 0x5587, 0x61f6, 0x7669, 0x7f85, 0x863f, 0x87ba, 0x88f8, 0x908f, 0x6d1b, 0x70d9, 0x73de, 0x7d61, 0x843d, 0x916a, 0x99f1,
	0x4e82, 0x5375, 0x6b04, 0x6b12, 0x703e, 0x721b, 0x862d, 0x9e1e, 0x524c, 0x8fa3, 0x5d50, 0x64e5, 0x652c, 0x6b16, 0x6feb, 0x7c43,
	0x7e9c, 0x85cd, 0x8964, 0x89bd, 0x62c9, 0x81d8, 0x881f, 0x5eca, 0x6717, 0x6d6a, 0x72fc, 0x7405, 0x746f, 0x8782, 0x90de, 0x4f86,
	0x5d0d, 0x5fa0, 0x840a, 0x51b7, 0x63a0, 0x7565, 0x4eae, 0x5006, 0x5169, 0x51c9, 0x6881, 0x6a11, 0x7cae, 0x7cb1, 0x7ce7, 0x826f,
	0x8ad2, 0x8f1b, 0x91cf, 0x4fb6, 0x5137, 0x52f5, 0x5442, 0x5eec, 0x616e, 0x623e, 0x65c5, 0x6ada, 0x6ffe, 0x792a, 0x85dc, 0x8823,
	0x95ad, 0x9a62, 0x9a6a, 0x9e97, 0x9ece, 0x529b, 0x66c6, 0x6b77, 0x701d, 0x792b, 0x8f62, 0x9742, 0x6190, 0x6200, 0x6523, 0x6f23,
	0x7149, 0x7489, 0x7df4, 0x806f, 0x84ee, 0x8f26, 0x9023, 0x934a, 0x51bd, 0x5217, 0x52a3, 0x6d0c, 0x70c8, 0x88c2, 0x5ec9, 0x6582,
	0x6bae, 0x6fc2, 0x7c3e, 0x7375, 0x4ee4, 0x4f36, 0x56f9, 0x5cba, 0x5dba, 0x601c, 0x73b2, 0x7b2d, 0x7f9a, 0x7fce, 0x8046, 0x901e,
	0x9234, 0x96f6, 0x9748, 0x9818, 0x9f61, 0x4f8b, 0x6fa7, 0x79ae, 0x91b4, 0x96b7, 0x52de, 0x6488, 0x64c4, 0x6ad3, 0x6f5e, 0x7018,
	0x7210, 0x76e7, 0x8001, 0x8606, 0x865c, 0x8def, 0x8f05, 0x9732, 0x9b6f, 0x9dfa, 0x9e75, 0x788c, 0x797f, 0x7da0, 0x83c9, 0x9304,
	0x9e7f, 0x9e93, 0x8ad6, 0x58df, 0x5f04, 0x6727, 0x7027, 0x74cf, 0x7c60, 0x807e, 0x5121, 0x7028, 0x7262, 0x78ca, 0x8cc2, 0x8cda,
	0x8cf4, 0x96f7, 0x4e86, 0x50da, 0x5bee, 0x5ed6, 0x6599, 0x71ce, 0x7642, 0x77ad, 0x804a, 0x84fc, 0x907c, 0x9b27, 0x9f8d, 0x58d8,
	0x5a41, 0x5c62, 0x6a13, 0x6dda, 0x6f0f, 0x763b, 0x7d2f, 0x7e37, 0x851e, 0x8938, 0x93e4, 0x964b, 0x5289, 0x65d2, 0x67f3, 0x69b4,
	0x6d41, 0x6e9c, 0x700f, 0x7409, 0x7460, 0x7559, 0x7624, 0x786b, 0x8b2c, 0x985e, 0x516d, 0x622e, 0x9678, 0x4f96, 0x502b, 0x5d19,
	0x6dea, 0x7db8, 0x8f2a, 0x5f8b, 0x6144, 0x6817, 0x9686, 0x52d2, 0x808b, 0x51dc, 0x51cc, 0x695e, 0x7a1c, 0x7dbe, 0x83f1, 0x9675,
	0x4fda, 0x5229, 0x5398, 0x540f, 0x550e, 0x5c65, 0x60a7, 0x674e, 0x68a8, 0x6d6c, 0x7281, 0x72f8, 0x7406, 0x7483, 0x75e2, 0x7c6c,
	0x7f79, 0x7fb8, 0x8389, 0x88cf, 0x88e1, 0x91cc, 0x91d0, 0x96e2, 0x9bc9, 0x541d, 0x6f7e, 0x71d0, 0x7498, 0x85fa, 0x8eaa, 0x96a3,
	0x9c57, 0x9e9f, 0x6797, 0x6dcb, 0x7433, 0x81e8, 0x9716, 0x782c, 0x7acb, 0x7b20, 0x7c92, 0x6469, 0x746a, 0x75f2, 0x78bc, 0x78e8,
	0x99ac, 0x9b54, 0x9ebb, 0x5bde, 0x5e55, 0x6f20, 0x819c, 0x83ab, 0x9088, 0x4e07, 0x534d, 0x5a29, 0x5dd2, 0x5f4e, 0x6162, 0x633d,
	0x6669, 0x66fc, 0x6eff, 0x6f2b, 0x7063, 0x779e, 0x842c, 0x8513, 0x883b, 0x8f13, 0x9945, 0x9c3b, 0x551c, 0x62b9, 0x672b, 0x6cab,
	0x8309, 0x896a, 0x977a, 0x4ea1, 0x5984, 0x5fd8, 0x5fd9, 0x671b, 0x7db2, 0x7f54, 0x8292, 0x832b, 0x83bd, 0x8f1e, 0x9099, 0x57cb,
	0x59b9, 0x5a92, 0x5bd0, 0x6627, 0x679a, 0x6885, 0x6bcf, 0x7164, 0x7f75, 0x8cb7, 0x8ce3, 0x9081, 0x9b45, 0x8108, 0x8c8a, 0x964c,
	0x9a40, 0x9ea5, 0x5b5f, 0x6c13, 0x731b, 0x76f2, 0x76df, 0x840c, 0x51aa, 0x8993, 0x514d, 0x5195, 0x52c9, 0x68c9, 0x6c94, 0x7704,
	0x7720, 0x7dbf, 0x7dec, 0x9762, 0x9eb5, 0x6ec5, 0x8511, 0x51a5, 0x540d, 0x547d, 0x660e, 0x669d, 0x6927, 0x6e9f, 0x76bf, 0x7791,
	0x8317, 0x84c2, 0x879f, 0x9169, 0x9298, 0x9cf4, 0x8882, 0x4fae, 0x5192, 0x52df, 0x59c6, 0x5e3d, 0x6155, 0x6478, 0x6479, 0x66ae,
	0x67d0, 0x6a21, 0x6bcd, 0x6bdb, 0x725f, 0x7261, 0x7441, 0x7738, 0x77db, 0x8017, 0x82bc, 0x8305, 0x8b00, 0x8b28, 0x8c8c, 0x6728,
	0x6c90, 0x7267, 0x76ee, 0x7766, 0x7a46, 0x9da9, 0x6b7f, 0x6c92, 0x5922, 0x6726, 0x8499, 0x536f, 0x5893, 0x5999, 0x5edf, 0x63cf,
	0x6634, 0x6773, 0x6e3a, 0x732b, 0x7ad7, 0x82d7, 0x9328, 0x52d9, 0x5deb, 0x61ae, 0x61cb, 0x620a, 0x62c7, 0x64ab, 0x65e0, 0x6959,
	0x6b66, 0x6bcb, 0x7121, 0x73f7, 0x755d, 0x7e46, 0x821e, 0x8302, 0x856a, 0x8aa3, 0x8cbf, 0x9727, 0x9d61, 0x58a8, 0x9ed8, 0x5011,
	0x520e, 0x543b, 0x554f, 0x6587, 0x6c76, 0x7d0a, 0x7d0b, 0x805e, 0x868a, 0x9580, 0x96ef, 0x52ff, 0x6c95, 0x7269, 0x5473, 0x5a9a,
	0x5c3e, 0x5d4b, 0x5f4c, 0x5fae, 0x672a, 0x68b6, 0x6963, 0x6e3c, 0x6e44, 0x7709, 0x7c73, 0x7f8e, 0x8587, 0x8b0e, 0x8ff7, 0x9761,
	0x9ef4, 0x5cb7, 0x60b6, 0x610d, 0x61ab, 0x654f, 0x65fb, 0x65fc, 0x6c11, 0x6cef, 0x739f, 0x73c9, 0x7de1, 0x9594, 0x5bc6, 0x871c,
	0x8b10, 0x525d, 0x535a, 0x62cd, 0x640f, 0x64b2, 0x6734, 0x6a38, 0x6cca, 0x73c0, 0x749e, 0x7b94, 0x7c95, 0x7e1b, 0x818a, 0x8236,
	0x8584, 0x8feb, 0x96f9, 0x99c1, 0x4f34, 0x534a, 0x53cd, 0x53db, 0x62cc, 0x642c, 0x6500, 0x6591, 0x69c3, 0x6cee, 0x6f58, 0x73ed,
	0x7554, 0x7622, 0x76e4, 0x76fc, 0x78d0, 0x78fb, 0x792c, 0x7d46, 0x822c, 0x87e0, 0x8fd4, 0x9812, 0x98ef, 0x52c3, 0x62d4, 0x64a5,
	0x6e24, 0x6f51, 0x767c, 0x8dcb, 0x91b1, 0x9262, 0x9aee, 0x9b43, 0x5023, 0x508d, 0x574a, 0x59a8, 0x5c28, 0x5e47, 0x5f77, 0x623f,
	0x653e, 0x65b9, 0x65c1, 0x6609, 0x678b, 0x699c, 0x6ec2, 0x78c5, 0x7d21, 0x80aa, 0x8180, 0x822b, 0x82b3, 0x84a1, 0x868c, 0x8a2a,
	0x8b17, 0x90a6, 0x9632, 0x9f90, 0x500d, 0x4ff3, 0x57f9, 0x5f98, 0x62dc, 0x6392, 0x676f, 0x6e43, 0x7119, 0x76c3, 0x80cc, 0x80da,
	0x88f4, 0x88f5, 0x8919, 0x8ce0, 0x8f29, 0x914d, 0x966a, 0x4f2f, 0x4f70, 0x5e1b, 0x67cf, 0x6822, 0x767d, 0x767e, 0x9b44, 0x5e61,
	0x6a0a, 0x7169, 0x71d4, 0x756a, 0x7e41, 0x8543, 0x85e9, 0x98dc, 0x4f10, 0x7b4f, 0x7f70, 0x95a5, 0x51e1, 0x5e06, 0x68b5, 0x6c3e,
	0x6c4e, 0x6cdb, 0x72af, 0x7bc4, 0x8303, 0x6cd5, 0x743a, 0x50fb, 0x5288, 0x58c1, 0x64d8, 0x6a97, 0x74a7, 0x7656, 0x78a7, 0x8617,
	0x95e2, 0x9739, 0x535e, 0x5f01, 0x8b8a, 0x8fa8, 0x8faf, 0x908a, 0x5225, 0x77a5, 0x9c49, 0x9f08, 0x4e19, 0x5002, 0x5175, 0x5c5b,
	0x5e77, 0x661e, 0x663a, 0x67c4, 0x68c5, 0x70b3, 0x7501, 0x75c5, 0x79c9, 0x7add, 0x8f27, 0x9920, 0x9a08, 0x4fdd, 0x5821, 0x5831,
	0x5bf6, 0x666e, 0x6b65, 0x6d11, 0x6e7a, 0x6f7d, 0x73e4, 0x752b, 0x83e9, 0x88dc, 0x8913, 0x8b5c, 0x8f14, 0x4f0f, 0x50d5, 0x5310,
	0x535c, 0x5b93, 0x5fa9, 0x670d, 0x798f, 0x8179, 0x832f, 0x8514, 0x8907, 0x8986, 0x8f39, 0x8f3b, 0x99a5, 0x9c12, 0x672c, 0x4e76,
	0x4ff8, 0x5949, 0x5c01, 0x5cef, 0x5cf0, 0x6367, 0x68d2, 0x70fd, 0x71a2, 0x742b, 0x7e2b, 0x84ec, 0x8702, 0x9022, 0x92d2, 0x9cf3,
	0x4ed8, 0x4fef, 0x5085, 0x5256, 0x526f, 0x5426, 0x5490, 0x57e0, 0x592b, 0x5a66, 0x5b5a, 0x5b75, 0x5bcc, 0x5e9c, 0x6276, 0x6577,
	0x65a7, 0x6d6e, 0x6ea5, 0x7236, 0x7b26, 0x7c3f, 0x7f36, 0x8150, 0x8151, 0x819a, 0x8240, 0x8299, 0x83a9, 0x8a03, 0x8ca0, 0x8ce6,
	0x8cfb, 0x8d74, 0x8dba, 0x90e8, 0x91dc, 0x961c, 0x9644, 0x99d9, 0x9ce7, 0x5317, 0x5206, 0x5429, 0x5674, 0x58b3, 0x5954, 0x596e,
	0x5fff, 0x61a4, 0x626e, 0x6610, 0x6c7e, 0x711a, 0x76c6, 0x7c89, 0x7cde, 0x7d1b, 0x82ac, 0x8cc1, 0x96f0, 0x4f5b, 0x5f17, 0x5f7f,
	0x62c2, 0x5d29, 0x670b, 0x68da, 0x787c, 0x7e43, 0x9d6c, 0x4e15, 0x5099, 0x5315, 0x532a, 0x5351, 0x5983, 0x5a62, 0x5e87, 0x60b2,
	0x618a, 0x6249, 0x6279, 0x6590, 0x6787, 0x69a7, 0x6bd4, 0x6bd6, 0x6bd7, 0x6bd8, 0x6cb8, 0x7435, 0x75fa, 0x7812, 0x7891, 0x79d5,
	0x79d8, 0x7c83, 0x7dcb, 0x7fe1, 0x80a5, 0x813e, 0x81c2, 0x83f2, 0x871a, 0x88e8, 0x8ab9, 0x8b6c, 0x8cbb, 0x9119, 0x975e, 0x98db,
	0x9f3b, 0x56ac, 0x5b2a, 0x5f6c, 0x658c, 0x6ab3, 0x6baf, 0x6d5c, 0x6ff1, 0x7015, 0x725d, 0x73ad, 0x8ca7, 0x8cd3, 0x983b, 0x6191,
	0x6c37, 0x8058, 0x9a01, 0x4e4d, 0x4e8b, 0x4e9b, 0x4ed5, 0x4f3a, 0x4f3c, 0x4f7f, 0x4fdf, 0x50ff, 0x53f2, 0x53f8, 0x5506, 0x55e3,
	0x56db, 0x58eb, 0x5962, 0x5a11, 0x5beb, 0x5bfa, 0x5c04, 0x5df3, 0x5e2b, 0x5f99, 0x601d, 0x6368, 0x659c, 0x65af, 0x67f6, 0x67fb,
	0x68ad, 0x6b7b, 0x6c99, 0x6cd7, 0x6e23, 0x7009, 0x7345, 0x7802, 0x793e, 0x7940, 0x7960, 0x79c1, 0x7be9, 0x7d17, 0x7d72, 0x8086,
	0x820d, 0x838e, 0x84d1, 0x86c7, 0x88df, 0x8a50, 0x8a5e, 0x8b1d, 0x8cdc, 0x8d66, 0x8fad, 0x90aa, 0x98fc, 0x99df, 0x9e9d, 0x524a,
	0x6714, 0x5098, 0x522a, 0x5c71, 0x6563, 0x6c55, 0x73ca, 0x7523, 0x759d, 0x7b97, 0x849c, 0x9178, 0x9730, 0x4e77, 0x6492, 0x6bba,
	0x715e, 0x85a9, 0x4e09, 0x6749, 0x68ee, 0x6e17, 0x829f, 0x8518, 0x886b, 0x63f7, 0x6f81, 0x9212, 0x98af, 0x4e0a, 0x50b7, 0x50cf,
	0x511f, 0x5546, 0x55aa, 0x5617, 0x5b40, 0x5c19, 0x5ce0, 0x5e38, 0x5e8a, 0x5ea0, 0x5ec2, 0x60f3, 0x6851, 0x6a61, 0x6e58, 0x723d,
	0x7240, 0x72c0, 0x76f8, 0x7965, 0x7bb1, 0x7fd4, 0x88f3, 0x89f4, 0x8a73, 0x8c61, 0x8cde, 0x971c, 0x585e, 0x74bd, 0x8cfd, 0x55c7,
	0x7a61, 0x7d22, 0x8272, 0x7272, 0x751f, 0x7525, 0x7b19, 0x5885, 0x58fb, 0x5dbc, 0x5e8f, 0x5eb6, 0x5f90, 0x6055, 0x6292, 0x637f,
	0x654d, 0x6691, 0x66d9, 0x66f8, 0x6816, 0x68f2, 0x7280, 0x745e, 0x7b6e, 0x7d6e, 0x7dd6, 0x7f72, 0x80e5, 0x8212, 0x85af, 0x897f,
	0x8a93, 0x901d, 0x92e4, 0x9ecd, 0x9f20, 0x5915, 0x596d, 0x5e2d, 0x60dc, 0x6614, 0x6673, 0x6790, 0x6c50, 0x6dc5, 0x6f5f, 0x77f3,
	0x78a9, 0x84c6, 0x91cb, 0x932b, 0x4ed9, 0x50ca, 0x5148, 0x5584, 0x5b0b, 0x5ba3, 0x6247, 0x657e, 0x65cb, 0x6e32, 0x717d, 0x7401,
	0x7444, 0x7487, 0x74bf, 0x766c, 0x79aa, 0x7dda, 0x7e55, 0x7fa8, 0x817a, 0x81b3, 0x8239, 0x861a, 0x87ec, 0x8a75, 0x8de3, 0x9078,
	0x9291, 0x9425, 0x994d, 0x9bae, 0x5368, 0x5c51, 0x6954, 0x6cc4, 0x6d29, 0x6e2b, 0x820c, 0x859b, 0x893b, 0x8a2d, 0x8aaa, 0x96ea,
	0x9f67, 0x5261, 0x66b9, 0x6bb2, 0x7e96, 0x87fe, 0x8d0d, 0x9583, 0x965d, 0x651d, 0x6d89, 0x71ee, 0x57ce, 0x59d3, 0x5bac, 0x6027,
	0x60fa, 0x6210, 0x661f, 0x665f, 0x7329, 0x73f9, 0x76db, 0x7701, 0x7b6c, 0x8056, 0x8072, 0x8165, 0x8aa0, 0x9192, 0x4e16, 0x52e2,
	0x6b72, 0x6d17, 0x7a05, 0x7b39, 0x7d30, 0x8cb0, 0x53ec, 0x562f, 0x5851, 0x5bb5, 0x5c0f, 0x5c11, 0x5de2, 0x6240, 0x6383, 0x6414,
	0x662d, 0x68b3, 0x6cbc, 0x6d88, 0x6eaf, 0x701f, 0x70a4, 0x71d2, 0x7526, 0x758f, 0x758e, 0x7619, 0x7b11, 0x7be0, 0x7c2b, 0x7d20,
	0x7d39, 0x852c, 0x856d, 0x8607, 0x8a34, 0x900d, 0x9061, 0x90b5, 0x92b7, 0x97f6, 0x9a37, 0x4fd7, 0x5c6c, 0x675f, 0x6d91, 0x7c9f,
	0x7e8c, 0x8b16, 0x8d16, 0x901f, 0x5b6b, 0x5dfd, 0x640d, 0x84c0, 0x905c, 0x98e1, 0x7387, 0x5b8b, 0x609a, 0x677e, 0x6dde, 0x8a1f,
	0x8aa6, 0x9001, 0x980c, 0x5237, 0x7051, 0x788e, 0x9396, 0x8870, 0x91d7, 0x4fee, 0x53d7, 0x55fd, 0x56da, 0x5782, 0x58fd, 0x5ac2,
	0x5b88, 0x5cab, 0x5cc0, 0x5e25, 0x6101, 0x620d, 0x624b, 0x6388, 0x641c, 0x6536, 0x6578, 0x6a39, 0x6b8a, 0x6c34, 0x6d19, 0x6f31,
	0x71e7, 0x72e9, 0x7378, 0x7407, 0x74b2, 0x7626, 0x7761, 0x79c0, 0x7a57, 0x7aea, 0x7cb9, 0x7d8f, 0x7dac, 0x7e61, 0x7f9e, 0x8129,
	0x8331, 0x8490, 0x84da, 0x85ea, 0x8896, 0x8ab0, 0x8b90, 0x8f38, 0x9042, 0x9083, 0x916c, 0x9296, 0x92b9, 0x968b, 0x96a7, 0x96a8,
	0x96d6, 0x9700, 0x9808, 0x9996, 0x9ad3, 0x9b1a, 0x53d4, 0x587e, 0x5919, 0x5b70, 0x5bbf, 0x6dd1, 0x6f5a, 0x719f, 0x7421, 0x74b9,
	0x8085, 0x83fd, 0x5de1, 0x5f87, 0x5faa, 0x6042, 0x65ec, 0x6812, 0x696f, 0x6a53, 0x6b89, 0x6d35, 0x6df3, 0x73e3, 0x76fe, 0x77ac,
	0x7b4d, 0x7d14, 0x8123, 0x821c, 0x8340, 0x84f4, 0x8563, 0x8a62, 0x8ac4, 0x9187, 0x931e, 0x9806, 0x99b4, 0x620c, 0x8853, 0x8ff0,
	0x9265, 0x5d07, 0x5d27, 0x5d69, 0x745f, 0x819d, 0x8768, 0x6fd5, 0x62fe, 0x7fd2, 0x8936, 0x8972, 0x4e1e, 0x4e58, 0x50e7, 0x52dd,
	0x5347, 0x627f, 0x6607, 0x7e69, 0x8805, 0x965e, 0x4f8d, 0x5319, 0x5636, 0x59cb, 0x5aa4, 0x5c38, 0x5c4e, 0x5c4d, 0x5e02, 0x5f11,
	0x6043, 0x65bd, 0x662f, 0x6642, 0x67be, 0x67f4, 0x731c, 0x77e2, 0x793a, 0x7fc5, 0x8494, 0x84cd, 0x8996, 0x8a66, 0x8a69, 0x8ae1,
	0x8c55, 0x8c7a, 0x57f4, 0x5bd4, 0x5f0f, 0x606f, 0x62ed, 0x690d, 0x6b96, 0x6e5c, 0x7184, 0x7bd2, 0x8755, 0x8b58, 0x8efe, 0x98df,
	0x98fe, 0x4f38, 0x4f81, 0x4fe1, 0x547b, 0x5a20, 0x5bb8, 0x613c, 0x65b0, 0x6668, 0x71fc, 0x7533, 0x795e, 0x7d33, 0x814e, 0x81e3,
	0x8398, 0x85aa, 0x85ce, 0x8703, 0x8a0a, 0x8eab, 0x8f9b, 0x8fc5, 0x5931, 0x5ba4, 0x5be6, 0x6089, 0x5be9, 0x5c0b, 0x5fc3, 0x6c81,
	0x6df1, 0x700b, 0x751a, 0x82af, 0x8af6, 0x4ec0, 0x5341, 0x96d9, 0x6c0f, 0x4e9e, 0x4fc4, 0x5152, 0x555e, 0x5a25, 0x5ce8, 0x6211,
	0x7259, 0x82bd, 0x83aa, 0x86fe, 0x8859, 0x8a1d, 0x963f, 0x96c5, 0x9913, 0x9d09, 0x9d5d, 0x580a, 0x5cb3, 0x5dbd, 0x5e44, 0x60e1,
	0x6115, 0x63e1, 0x6e25, 0x9102, 0x9354, 0x984e, 0x9c10, 0x9f77, 0x5b89, 0x5cb8, 0x6309, 0x664f, 0x6848, 0x773c, 0x96c1, 0x978d,
	0x9854, 0x9b9f, 0x65a1, 0x8b01, 0x8ecb, 0x95bc, 0x5535, 0x5ca9, 0x5dd6, 0x5eb5, 0x6697, 0x764c, 0x83f4, 0x95c7, 0x58d3, 0x62bc,
	0x72ce, 0x9d28, 0x4ef0, 0x592e, 0x600f, 0x663b, 0x6b83, 0x79e7, 0x9d26, 0x5393, 0x54c0, 0x57c3, 0x5d16, 0x611b, 0x66d6, 0x6daf,
	0x788d, 0x827e, 0x9698, 0x9744, 0x5384, 0x627c, 0x6396, 0x6db2, 0x7e0a, 0x814b, 0x984d, 0x6afb, 0x7f4c, 0x9daf, 0x9e1a, 0x4e5f,
	0x503b, 0x51b6, 0x591c, 0x60f9, 0x63f6, 0x6930, 0x723a, 0x8036, 0x91ce, 0x5f31, 0x7d04, 0x82e5, 0x846f, 0x84bb, 0x85e5, 0x8e8d,
	0x4f6f, 0x58e4, 0x5b43, 0x6059, 0x63da, 0x6518, 0x656d, 0x6698, 0x694a, 0x6a23, 0x6d0b, 0x7001, 0x716c, 0x75d2, 0x760d, 0x79b3,
	0x7a70, 0x7f8a, 0x8944, 0x8b93, 0x91c0, 0x967d, 0x990a, 0x5704, 0x5fa1, 0x65bc, 0x6f01, 0x7600, 0x79a6, 0x8a9e, 0x99ad, 0x9b5a,
	0x9f6c, 0x5104, 0x61b6, 0x6291, 0x6a8d, 0x81c6, 0x5043, 0x5830, 0x5f66, 0x7109, 0x8a00, 0x8afa, 0x5b7c, 0x8616, 0x4ffa, 0x513c,
	0x56b4, 0x5944, 0x63a9, 0x6df9, 0x5daa, 0x696d, 0x5186, 0x4e88, 0x4f59, 0x5982, 0x6b5f, 0x6c5d, 0x74b5, 0x7916, 0x8207, 0x8245,
	0x8339, 0x8f3f, 0x8f5d, 0x9918, 0x4ea6, 0x57df, 0x5f79, 0x6613, 0x75ab, 0x7e79, 0x8b6f, 0x9006, 0x9a5b, 0x56a5, 0x5827, 0x59f8,
	0x5a1f, 0x5bb4, 0x5ef6, 0x6350, 0x633b, 0x693d, 0x6c87, 0x6cbf, 0x6d8e, 0x6d93, 0x6df5, 0x6f14, 0x70df, 0x7136, 0x7159, 0x71c3,
	0x71d5, 0x784f, 0x786f, 0x7b75, 0x7de3, 0x7e2f, 0x884d, 0x8edf, 0x925b, 0x9cf6, 0x6085, 0x6d85, 0x71b1, 0x95b1, 0x53ad, 0x67d3,
	0x708e, 0x7130, 0x7430, 0x8276, 0x82d2, 0x95bb, 0x9ae5, 0x9e7d, 0x66c4, 0x71c1, 0x8449, 0x584b, 0x5db8, 0x5f71, 0x6620, 0x668e,
	0x6979, 0x69ae, 0x6c38, 0x6cf3, 0x6e36, 0x6f41, 0x6fda, 0x701b, 0x702f, 0x7150, 0x71df, 0x7370, 0x745b, 0x74d4, 0x76c8, 0x7a4e,
	0x7e93, 0x82f1, 0x8a60, 0x8fce, 0x9348, 0x9719, 0x4e42, 0x502a, 0x5208, 0x53e1, 0x66f3, 0x6c6d, 0x6fca, 0x730a, 0x777f, 0x7a62,
	0x82ae, 0x85dd, 0x8602, 0x88d4, 0x8a63, 0x8b7d, 0x8c6b, 0x92b3, 0x9713, 0x9810, 0x4e94, 0x4f0d, 0x4fc9, 0x50b2, 0x5348, 0x543e,
	0x5433, 0x55da, 0x5862, 0x58ba, 0x5967, 0x5a1b, 0x5be4, 0x609f, 0x61ca, 0x6556, 0x65ff, 0x6664, 0x68a7, 0x6c5a, 0x6fb3, 0x70cf,
	0x71ac, 0x7352, 0x7b7d, 0x8708, 0x8aa4, 0x9c32, 0x9f07, 0x5c4b, 0x6c83, 0x7344, 0x7389, 0x923a, 0x6eab, 0x7465, 0x761f, 0x7a69,
	0x7e15, 0x860a, 0x5140, 0x58c5, 0x64c1, 0x74ee, 0x7515, 0x7670, 0x7fc1, 0x9095, 0x96cd, 0x9954, 0x6e26, 0x74e6, 0x7aa9, 0x7aaa,
	0x81e5, 0x86d9, 0x8778, 0x8a1b, 0x5a49, 0x5b8c, 0x5b9b, 0x68a1, 0x6900, 0x6d63, 0x73a9, 0x7413, 0x742c, 0x7897, 0x7de9, 0x7feb,
	0x8118, 0x8155, 0x839e, 0x8c4c, 0x962e, 0x9811, 0x66f0, 0x5f80, 0x65fa, 0x6789, 0x6c6a, 0x738b, 0x502d, 0x5a03, 0x6b6a, 0x77ee,
	0x5916, 0x5d6c, 0x5dcd, 0x7325, 0x754f, 0x50e5, 0x51f9, 0x582f, 0x592d, 0x5996, 0x59da, 0x5be5, 0x5da2, 0x62d7, 0x6416, 0x6493,
	0x64fe, 0x66dc, 0x6a48, 0x71ff, 0x7464, 0x7a88, 0x7aaf, 0x7e47, 0x7e5e, 0x8000, 0x8170, 0x87ef, 0x8981, 0x8b20, 0x9059, 0x9080,
	0x9952, 0x617e, 0x6b32, 0x6d74, 0x7e1f, 0x8925, 0x8fb1, 0x4fd1, 0x50ad, 0x5197, 0x52c7, 0x57c7, 0x5889, 0x5bb9, 0x5eb8, 0x6142,
	0x6995, 0x6d8c, 0x6e67, 0x6eb6, 0x7194, 0x7462, 0x7528, 0x752c, 0x8073, 0x8338, 0x84c9, 0x8e0a, 0x9394, 0x93de, 0x4e8e, 0x4f51,
	0x5076, 0x512a, 0x53c8, 0x53cb, 0x53f3, 0x5b87, 0x5bd3, 0x5c24, 0x611a, 0x6182, 0x65f4, 0x725b, 0x7397, 0x7440, 0x76c2, 0x7950,
	0x7991, 0x79b9, 0x7d06, 0x7fbd, 0x828b, 0x85d5, 0x865e, 0x8fc2, 0x9047, 0x90f5, 0x91ea, 0x9685, 0x96e8, 0x96e9, 0x52d6, 0x5f67,
	0x65ed, 0x6631, 0x682f, 0x715c, 0x7a36, 0x90c1, 0x980a, 0x4e91, 0x6a52, 0x6b9e, 0x6f90, 0x7189, 0x8018, 0x82b8, 0x8553, 0x904b,
	0x9695, 0x96f2, 0x97fb, 0x851a, 0x9b31, 0x4e90, 0x718a, 0x96c4, 0x5143, 0x539f, 0x54e1, 0x5713, 0x5712, 0x57a3, 0x5a9b, 0x5ac4,
	0x5bc3, 0x6028, 0x613f, 0x63f4, 0x6c85, 0x6d39, 0x6e72, 0x6e90, 0x7230, 0x733f, 0x7457, 0x82d1, 0x8881, 0x8f45, 0x9060, 0x9662,
	0x9858, 0x9d1b, 0x6708, 0x8d8a, 0x925e, 0x4f4d, 0x5049, 0x50de, 0x5371, 0x570d, 0x59d4, 0x5a01, 0x5c09, 0x6170, 0x6690, 0x6e2d,
	0x7232, 0x744b, 0x7def, 0x80c3, 0x840e, 0x8466, 0x853f, 0x875f, 0x885b, 0x8918, 0x8b02, 0x9055, 0x97cb, 0x9b4f, 0x4e73, 0x4f91,
	0x5112, 0x516a, 0x552f, 0x55a9, 0x5b7a, 0x5ba5, 0x5e7c, 0x5e7d, 0x5ebe, 0x60a0, 0x60df, 0x6108, 0x6109, 0x63c4, 0x6538, 0x6709,
	0x67d4, 0x67da, 0x6961, 0x6962, 0x6cb9, 0x6d27, 0x6e38, 0x6fe1, 0x7336, 0x7337, 0x745c, 0x7531, 0x7652, 0x7dad, 0x81fe, 0x8438,
	0x88d5, 0x8a98, 0x8adb, 0x8aed, 0x8e30, 0x8e42, 0x904a, 0x903e, 0x907a, 0x9149, 0x91c9, 0x936e, 0x5809, 0x6bd3, 0x8089, 0x80b2,
	0x5141, 0x596b, 0x5c39, 0x6f64, 0x73a7, 0x80e4, 0x8d07, 0x9217, 0x958f, 0x807f, 0x620e, 0x701c, 0x7d68, 0x878d, 0x57a0, 0x6069,
	0x6147, 0x6bb7, 0x8abe, 0x9280, 0x96b1, 0x4e59, 0x541f, 0x6deb, 0x852d, 0x9670, 0x97f3, 0x98ee, 0x63d6, 0x6ce3, 0x9091, 0x51dd,
	0x61c9, 0x81ba, 0x9df9, 0x4f9d, 0x501a, 0x5100, 0x5b9c, 0x610f, 0x61ff, 0x64ec, 0x6905, 0x6bc5, 0x7591, 0x77e3, 0x7fa9, 0x8264,
	0x858f, 0x87fb, 0x8863, 0x8abc, 0x8b70, 0x91ab, 0x4e8c, 0x4ee5, 0x4f0a, 0x5937, 0x59e8, 0x5df2, 0x5f1b, 0x5f5b, 0x6021, 0x723e,
	0x73e5, 0x75cd, 0x79fb, 0x800c, 0x8033, 0x8084, 0x82e1, 0x8351, 0x8cbd, 0x8cb3, 0x9087, 0x98f4, 0x990c, 0x7037, 0x76ca, 0x7fca,
	0x7fcc, 0x7ffc, 0x8b1a, 0x4eba, 0x4ec1, 0x5203, 0x5370, 0x54bd, 0x56e0, 0x59fb, 0x5bc5, 0x5f15, 0x5fcd, 0x6e6e, 0x7d6a, 0x8335,
	0x8693, 0x8a8d, 0x976d, 0x9777, 0x4e00, 0x4f5a, 0x4f7e, 0x58f9, 0x65e5, 0x6ea2, 0x9038, 0x93b0, 0x99b9, 0x4efb, 0x58ec, 0x598a,
	0x59d9, 0x6041, 0x7a14, 0x834f, 0x8cc3, 0x5165, 0x5344, 0x4ecd, 0x5269, 0x5b55, 0x82bf, 0x4ed4, 0x523a, 0x54a8, 0x59c9, 0x59ff,
	0x5b50, 0x5b57, 0x5b5c, 0x6063, 0x6148, 0x6ecb, 0x7099, 0x716e, 0x7386, 0x74f7, 0x75b5, 0x78c1, 0x7d2b, 0x8005, 0x81ea, 0x8328,
	0x8517, 0x85c9, 0x8aee, 0x8cc7, 0x96cc, 0x4f5c, 0x52fa, 0x56bc, 0x65ab, 0x6628, 0x707c, 0x70b8, 0x7235, 0x7dbd, 0x828d, 0x914c,
	0x96c0, 0x9d72, 0x5b71, 0x68e7, 0x6b98, 0x6f7a, 0x76de, 0x5c91, 0x66ab, 0x6f5b, 0x7bb4, 0x7c2a, 0x8836, 0x96dc, 0x4e08, 0x4ed7,
	0x5320, 0x5834, 0x58bb, 0x58ef, 0x596c, 0x5c07, 0x5e33, 0x5e84, 0x5f35, 0x638c, 0x66b2, 0x6756, 0x6a1f, 0x6aa3, 0x6b0c, 0x6f3f,
	0x7246, 0x7350, 0x748b, 0x7ae0, 0x7ca7, 0x8178, 0x81df, 0x81e7, 0x838a, 0x846c, 0x8523, 0x8594, 0x85cf, 0x88dd, 0x8d13, 0x91ac,
	0x9577, 0x969c, 0x518d, 0x54c9, 0x5728, 0x5bb0, 0x624d, 0x6750, 0x683d, 0x6893, 0x6e3d, 0x6ed3, 0x707d, 0x7e21, 0x88c1, 0x8ca1,
	0x8f09, 0x9f4b, 0x9f4e, 0x722d, 0x7b8f, 0x8acd, 0x931a, 0x4f47, 0x4f4e, 0x5132, 0x5480, 0x59d0, 0x5e95, 0x62b5, 0x6775, 0x696e,
	0x6a17, 0x6cae, 0x6e1a, 0x72d9, 0x732a, 0x75bd, 0x7bb8, 0x7d35, 0x82e7, 0x83f9, 0x8457, 0x85f7, 0x8a5b, 0x8caf, 0x8e87, 0x9019,
	0x90b8, 0x96ce, 0x9f5f, 0x52e3, 0x540a, 0x5ae1, 0x5bc2, 0x6458, 0x6575, 0x6ef4, 0x72c4, 0x7684, 0x7a4d, 0x7b1b, 0x7c4d, 0x7e3e,
	0x7fdf, 0x837b, 0x8b2b, 0x8cca, 0x8d64, 0x8de1, 0x8e5f, 0x8fea, 0x8ff9, 0x9069, 0x93d1, 0x4f43, 0x4f7a, 0x50b3, 0x5168, 0x5178,
	0x524d, 0x526a, 0x5861, 0x587c, 0x5960, 0x5c08, 0x5c55, 0x5edb, 0x609b, 0x6230, 0x6813, 0x6bbf, 0x6c08, 0x6fb1, 0x714e, 0x7420,
	0x7530, 0x7538, 0x7551, 0x7672, 0x7b4c, 0x7b8b, 0x7bad, 0x7bc6, 0x7e8f, 0x8a6e, 0x8f3e, 0x8f49, 0x923f, 0x9293, 0x9322, 0x942b,
	0x96fb, 0x985a, 0x986b, 0x991e, 0x5207, 0x622a, 0x6298, 0x6d59, 0x7664, 0x7aca, 0x7bc0, 0x7d76, 0x5360, 0x5cbe, 0x5e97, 0x6f38,
	0x70b9, 0x7c98, 0x9711, 0x9b8e, 0x9ede, 0x63a5, 0x647a, 0x8776, 0x4e01, 0x4e95, 0x4ead, 0x505c, 0x5075, 0x5448, 0x59c3, 0x5b9a,
	0x5e40, 0x5ead, 0x5ef7, 0x5f81, 0x60c5, 0x633a, 0x653f, 0x6574, 0x65cc, 0x6676, 0x6678, 0x67fe, 0x6968, 0x6a89, 0x6b63, 0x6c40,
	0x6dc0, 0x6de8, 0x6e1f, 0x6e5e, 0x701e, 0x70a1, 0x738e, 0x73fd, 0x753a, 0x775b, 0x7887, 0x798e, 0x7a0b, 0x7a7d, 0x7cbe, 0x7d8e,
	0x8247, 0x8a02, 0x8aea, 0x8c9e, 0x912d, 0x914a, 0x91d8, 0x9266, 0x92cc, 0x9320, 0x9706, 0x9756, 0x975c, 0x9802, 0x9f0e, 0x5236,
	0x5291, 0x557c, 0x5824, 0x5e1d, 0x5f1f, 0x608c, 0x63d0, 0x68af, 0x6fdf, 0x796d, 0x7b2c, 0x81cd, 0x85ba, 0x88fd, 0x8af8, 0x8e44,
	0x918d, 0x9664, 0x969b, 0x973d, 0x984c, 0x9f4a, 0x4fce, 0x5146, 0x51cb, 0x52a9, 0x5632, 0x5f14, 0x5f6b, 0x63aa, 0x64cd, 0x65e9,
	0x6641, 0x66fa, 0x66f9, 0x671d, 0x689d, 0x68d7, 0x69fd, 0x6f15, 0x6f6e, 0x7167, 0x71e5, 0x722a, 0x74aa, 0x773a, 0x7956, 0x795a,
	0x79df, 0x7a20, 0x7a95, 0x7c97, 0x7cdf, 0x7d44, 0x7e70, 0x8087, 0x85fb, 0x86a4, 0x8a54, 0x8abf, 0x8d99, 0x8e81, 0x9020, 0x906d,
	0x91e3, 0x963b, 0x96d5, 0x9ce5, 0x65cf, 0x7c07, 0x8db3, 0x93c3, 0x5b58, 0x5c0a, 0x5352, 0x62d9, 0x731d, 0x5027, 0x5b97, 0x5f9e,
	0x60b0, 0x616b, 0x68d5, 0x6dd9, 0x742e, 0x7a2e, 0x7d42, 0x7d9c, 0x7e31, 0x816b, 0x8e2a, 0x8e35, 0x937e, 0x9418, 0x4f50, 0x5750,
	0x5de6, 0x5ea7, 0x632b, 0x7f6a, 0x4e3b, 0x4f4f, 0x4f8f, 0x505a, 0x59dd, 0x80c4, 0x546a, 0x5468, 0x55fe, 0x594f, 0x5b99, 0x5dde,
	0x5eda, 0x665d, 0x6731, 0x67f1, 0x682a, 0x6ce8, 0x6d32, 0x6e4a, 0x6f8d, 0x70b7, 0x73e0, 0x7587, 0x7c4c, 0x7d02, 0x7d2c, 0x7da2,
	0x821f, 0x86db, 0x8a3b, 0x8a85, 0x8d70, 0x8e8a, 0x8f33, 0x9031, 0x914e, 0x9152, 0x9444, 0x99d0, 0x7af9, 0x7ca5, 0x4fca, 0x5101,
	0x51c6, 0x57c8, 0x5bef, 0x5cfb, 0x6659, 0x6a3d, 0x6d5a, 0x6e96, 0x6fec, 0x710c, 0x756f, 0x7ae3, 0x8822, 0x9021, 0x9075, 0x96cb,
	0x99ff, 0x8301, 0x4e2d, 0x4ef2, 0x8846, 0x91cd, 0x537d, 0x6adb, 0x696b, 0x6c41, 0x847a, 0x589e, 0x618e, 0x66fe, 0x62ef, 0x70dd,
	0x7511, 0x75c7, 0x7e52, 0x84b8, 0x8b49, 0x8d08, 0x4e4b, 0x53ea, 0x54ab, 0x5730, 0x5740, 0x5fd7, 0x6301, 0x6307, 0x646f, 0x652f,
	0x65e8, 0x667a, 0x679d, 0x67b3, 0x6b62, 0x6c60, 0x6c9a, 0x6f2c, 0x77e5, 0x7825, 0x7949, 0x7957, 0x7d19, 0x80a2, 0x8102, 0x81f3,
	0x829d, 0x82b7, 0x8718, 0x8a8c, 0x8d04, 0x8dbe, 0x9072, 0x76f4, 0x7a19, 0x7a37, 0x7e54, 0x8077, 0x5507, 0x55d4, 0x5875, 0x632f,
	0x6422, 0x6649, 0x664b, 0x686d, 0x699b, 0x6b84, 0x6d25, 0x6eb1, 0x73cd, 0x7468, 0x74a1, 0x755b, 0x75b9, 0x76e1, 0x771e, 0x778b,
	0x79e6, 0x7e09, 0x7e1d, 0x81fb, 0x852f, 0x8897, 0x8a3a, 0x8cd1, 0x8eeb, 0x8fb0, 0x9032, 0x93ad, 0x9663, 0x9673, 0x9707, 0x4f84,
	0x53f1, 0x59ea, 0x5ac9, 0x5e19, 0x684e, 0x74c6, 0x75be, 0x79e9, 0x7a92, 0x81a3, 0x86ed, 0x8cea, 0x8dcc, 0x8fed, 0x659f, 0x6715,
	0x57f7, 0x6f57, 0x7ddd, 0x8f2f, 0x93f6, 0x96c6, 0x5fb5, 0x61f2, 0x6f84, 0x4e14, 0x4f98, 0x501f, 0x53c9, 0x55df, 0x5d6f, 0x5dee,
	0x6b21, 0x6b64, 0x78cb, 0x7b9a, 0x8e49, 0x8eca, 0x906e, 0x6349, 0x643e, 0x7740, 0x7a84, 0x932f, 0x947f, 0x9f6a, 0x64b0, 0x6faf,
	0x71e6, 0x74a8, 0x74da, 0x7ac4, 0x7c12, 0x7e82, 0x7cb2, 0x7e98, 0x8b9a, 0x8d0a, 0x947d, 0x9910, 0x994c, 0x5239, 0x5bdf, 0x64e6,
	0x672d, 0x7d2e, 0x50ed, 0x53c3, 0x5879, 0x6158, 0x6159, 0x61fa, 0x65ac, 0x7ad9, 0x8b92, 0x8b96, 0x5009, 0x5021, 0x5275, 0x5531,
	0x5a3c, 0x5ee0, 0x5f70, 0x6134, 0x655e, 0x660c, 0x6636, 0x66a2, 0x69cd, 0x6ec4, 0x6f32, 0x7316, 0x7621, 0x7a93, 0x8139, 0x8259,
	0x83d6, 0x84bc, 0x50b5, 0x57f0, 0x5bc0, 0x5be8, 0x5f69, 0x63a1, 0x7826, 0x7db5, 0x83dc, 0x8521, 0x91c7, 0x91f5, 0x518a, 0x67f5,
	0x7b56, 0x8cac, 0x51c4, 0x59bb, 0x60bd, 0x8655, 0x501c, 0x5254, 0x5c3a, 0x617d, 0x621a, 0x62d3, 0x64f2, 0x65a5, 0x6ecc, 0x7620,
	0x810a, 0x8e60, 0x965f, 0x96bb, 0x4edf, 0x5343, 0x5598, 0x5929, 0x5ddd, 0x64c5, 0x6cc9, 0x6dfa, 0x7394, 0x7a7f, 0x821b, 0x85a6,
	0x8ce4, 0x8e10, 0x9077, 0x91e7, 0x95e1, 0x9621, 0x97c6, 0x51f8, 0x54f2, 0x5586, 0x5fb9, 0x64a4, 0x6f88, 0x7db4, 0x8f1f, 0x8f4d,
	0x9435, 0x50c9, 0x5c16, 0x6cbe, 0x6dfb, 0x751b, 0x77bb, 0x7c3d, 0x7c64, 0x8a79, 0x8ac2, 0x581e, 0x59be, 0x5e16, 0x6377, 0x7252,
	0x758a, 0x776b, 0x8adc, 0x8cbc, 0x8f12, 0x5ef3, 0x6674, 0x6df8, 0x807d, 0x83c1, 0x8acb, 0x9751, 0x9bd6, 0x5243, 0x66ff, 0x6d95,
	0x6eef, 0x7de0, 0x8ae6, 0x902e, 0x905e, 0x9ad4, 0x521d, 0x527f, 0x54e8, 0x6194, 0x6284, 0x62db, 0x68a2, 0x6912, 0x695a, 0x6a35,
	0x7092, 0x7126, 0x785d, 0x7901, 0x790e, 0x79d2, 0x7a0d, 0x8096, 0x8278, 0x82d5, 0x8349, 0x8549, 0x8c82, 0x8d85, 0x9162, 0x918b,
	0x91ae, 0x4fc3, 0x56d1, 0x71ed, 0x77d7, 0x8700, 0x89f8, 0x5bf8, 0x5fd6, 0x6751, 0x90a8, 0x53e2, 0x585a, 0x5bf5, 0x60a4, 0x6181,
	0x6460, 0x7e3d, 0x8070, 0x8525, 0x9283, 0x64ae, 0x50ac, 0x5d14, 0x6700, 0x589c, 0x62bd, 0x63a8, 0x690e, 0x6978, 0x6a1e, 0x6e6b,
	0x76ba, 0x79cb, 0x82bb, 0x8429, 0x8acf, 0x8da8, 0x8ffd, 0x9112, 0x914b, 0x919c, 0x9310, 0x9318, 0x939a, 0x96db, 0x9a36, 0x9c0d,
	0x4e11, 0x755c, 0x795d, 0x7afa, 0x7b51, 0x7bc9, 0x7e2e, 0x84c4, 0x8e59, 0x8e74, 0x8ef8, 0x9010, 0x6625, 0x693f, 0x7443, 0x51fa,
	0x672e, 0x9edc, 0x5145, 0x5fe0, 0x6c96, 0x87f2, 0x885d, 0x8877, 0x60b4, 0x81b5, 0x8403, 0x8d05, 0x53d6, 0x5439, 0x5634, 0x5a36,
	0x5c31, 0x708a, 0x7fe0, 0x805a, 0x8106, 0x81ed, 0x8da3, 0x9189, 0x9a5f, 0x9df2, 0x5074, 0x4ec4, 0x53a0, 0x60fb, 0x6e2c, 0x5c64,
	0x4f88, 0x5024, 0x55e4, 0x5cd9, 0x5e5f, 0x6065, 0x6894, 0x6cbb, 0x6dc4, 0x71be, 0x75d4, 0x75f4, 0x7661, 0x7a1a, 0x7a49, 0x7dc7,
	0x7dfb, 0x7f6e, 0x81f4, 0x86a9, 0x8f1c, 0x96c9, 0x99b3, 0x9f52, 0x5247, 0x52c5, 0x98ed, 0x89aa, 0x4e03, 0x67d2, 0x6f06, 0x4fb5,
	0x5be2, 0x6795, 0x6c88, 0x6d78, 0x741b, 0x7827, 0x91dd, 0x937c, 0x87c4, 0x79e4, 0x7a31, 0x5feb, 0x4ed6, 0x54a4, 0x553e, 0x58ae,
	0x59a5, 0x60f0, 0x6253, 0x62d6, 0x6736, 0x6955, 0x8235, 0x9640, 0x99b1, 0x99dd, 0x502c, 0x5353, 0x5544, 0x577c, 0x6258, 0x64e2,
	0x666b, 0x67dd, 0x6fc1, 0x6fef, 0x7422, 0x7438, 0x8a17, 0x9438, 0x5451, 0x5606, 0x5766, 0x5f48, 0x619a, 0x6b4e, 0x7058, 0x70ad,
	0x7dbb, 0x8a95, 0x596a, 0x812b, 0x63a2, 0x7708, 0x803d, 0x8caa, 0x5854, 0x642d, 0x69bb, 0x5b95, 0x5e11, 0x6e6f, 0x8569, 0x514c,
	0x53f0, 0x592a, 0x6020, 0x614b, 0x6b86, 0x6c70, 0x6cf0, 0x7b1e, 0x80ce, 0x82d4, 0x8dc6, 0x90b0, 0x98b1, 0x64c7, 0x6fa4, 0x6491,
	0x6504, 0x514e, 0x5410, 0x571f, 0x8a0e, 0x615f, 0x6876, 0x75db, 0x7b52, 0x7d71, 0x901a, 0x5806, 0x69cc, 0x817f, 0x892a, 0x9000,
	0x9839, 0x5078, 0x5957, 0x59ac, 0x6295, 0x900f, 0x9b2a, 0x615d, 0x7279, 0x95d6, 0x5761, 0x5a46, 0x5df4, 0x628a, 0x64ad, 0x64fa,
	0x6777, 0x6ce2, 0x6d3e, 0x722c, 0x7436, 0x7834, 0x7f77, 0x82ad, 0x8ddb, 0x9817, 0x5224, 0x5742, 0x677f, 0x7248, 0x74e3, 0x8ca9,
	0x8fa6, 0x9211, 0x962a, 0x516b, 0x53ed, 0x634c, 0x4f69, 0x5504, 0x6096, 0x6557, 0x6c9b, 0x6d7f, 0x724c, 0x72fd, 0x7a17, 0x8987,
	0x8c9d, 0x5f6d, 0x6f8e, 0x70f9, 0x81a8, 0x610e, 0x4fbf, 0x504f, 0x6241, 0x7247, 0x7bc7, 0x7de8, 0x7fe9, 0x904d, 0x97ad, 0x9a19,
	0x8cb6, 0x576a, 0x5e73, 0x67b0, 0x840d, 0x8a55, 0x5420, 0x5b16, 0x5e63, 0x5ee2, 0x5f0a, 0x6583, 0x80ba, 0x853d, 0x9589, 0x965b,
	0x4f48, 0x5305, 0x530d, 0x530f, 0x5486, 0x54fa, 0x5703, 0x5e03, 0x6016, 0x629b, 0x62b1, 0x6355, 0x6ce1, 0x6d66, 0x75b1, 0x7832,
	0x80de, 0x812f, 0x82de, 0x8461, 0x84b2, 0x888d, 0x8912, 0x900b, 0x92ea, 0x98fd, 0x9b91, 0x5e45, 0x66b4, 0x66dd, 0x7011, 0x7206,
	0x4ff5, 0x527d, 0x5f6a, 0x6153, 0x6753, 0x6a19, 0x6f02, 0x74e2, 0x7968, 0x8868, 0x8c79, 0x98c7, 0x98c4, 0x9a43, 0x54c1, 0x7a1f,
	0x6953, 0x8af7, 0x8c4a, 0x98a8, 0x99ae, 0x5f7c, 0x62ab, 0x75b2, 0x76ae, 0x88ab, 0x907f, 0x9642, 0x5339, 0x5f3c, 0x5fc5, 0x73cc,
	0x7562, 0x758b, 0x7b46, 0x82fe, 0x999d, 0x4e4f, 0x903c, 0x4e0b, 0x4f55, 0x53a6, 0x590f, 0x5ec8, 0x6630, 0x6cb3, 0x7455, 0x8377,
	0x8766, 0x8cc0, 0x9050, 0x971e, 0x9c15, 0x58d1, 0x5b78, 0x8650, 0x8b14, 0x9db4, 0x5bd2, 0x6068, 0x608d, 0x65f1, 0x6c57, 0x6f22,
	0x6fa3, 0x701a, 0x7f55, 0x7ff0, 0x9591, 0x9592, 0x9650, 0x97d3, 0x5272, 0x8f44, 0x51fd, 0x542b, 0x54b8, 0x5563, 0x558a, 0x6abb,
	0x6db5, 0x7dd8, 0x8266, 0x929c, 0x9677, 0x9e79, 0x5408, 0x54c8, 0x76d2, 0x86e4, 0x95a4, 0x95d4, 0x965c, 0x4ea2, 0x4f09, 0x59ee,
	0x5ae6, 0x5df7, 0x6052, 0x6297, 0x676d, 0x6841, 0x6c86, 0x6e2f, 0x7f38, 0x809b, 0x822a, 0x9805, 0x4ea5, 0x5055, 0x54b3, 0x5793,
	0x595a, 0x5b69, 0x5bb3, 0x61c8, 0x6977, 0x6d77, 0x7023, 0x87f9, 0x89e3, 0x8a72, 0x8ae7, 0x9082, 0x99ed, 0x9ab8, 0x52be, 0x6838,
	0x5016, 0x5e78, 0x674f, 0x8347, 0x884c, 0x4eab, 0x5411, 0x56ae, 0x73e6, 0x9115, 0x97ff, 0x9909, 0x9957, 0x9999, 0x5653, 0x589f,
	0x865b, 0x8a31, 0x61b2, 0x6af6, 0x737b, 0x8ed2, 0x6b47, 0x96aa, 0x9a57, 0x5955, 0x7200, 0x8d6b, 0x9769, 0x4fd4, 0x5cf4, 0x5f26,
	0x61f8, 0x665b, 0x6ceb, 0x70ab, 0x7384, 0x73b9, 0x73fe, 0x7729, 0x774d, 0x7d43, 0x7d62, 0x7e23, 0x8237, 0x8852, 0x8ce2, 0x9249,
	0x986f, 0x5b51, 0x7a74, 0x8840, 0x9801, 0x5acc, 0x4fe0, 0x5354, 0x593e, 0x5cfd, 0x633e, 0x6d79, 0x72f9, 0x8105, 0x8107, 0x83a2,
	0x92cf, 0x9830, 0x4ea8, 0x5144, 0x5211, 0x578b, 0x5f62, 0x6cc2, 0x6ece, 0x7005, 0x7050, 0x70af, 0x7192, 0x73e9, 0x7469, 0x834a,
	0x87a2, 0x8861, 0x9008, 0x90a2, 0x93a3, 0x99a8, 0x516e, 0x5f57, 0x60e0, 0x6167, 0x66b3, 0x8559, 0x8e4a, 0x91af, 0x978b, 0x4e4e,
	0x4e92, 0x547c, 0x58d5, 0x58fa, 0x597d, 0x5cb5, 0x5f27, 0x6236, 0x6248, 0x660a, 0x6667, 0x6beb, 0x6d69, 0x6dcf, 0x6e56, 0x6ef8,
	0x6f94, 0x6fe0, 0x6fe9, 0x705d, 0x72d0, 0x7425, 0x745a, 0x74e0, 0x7693, 0x795c, 0x7cca, 0x7e1e, 0x80e1, 0x82a6, 0x846b, 0x84bf,
	0x864e, 0x865f, 0x8774, 0x8b77, 0x8c6a, 0x93ac, 0x9800, 0x9865, 0x60d1, 0x6216, 0x9177, 0x5a5a, 0x660f, 0x6df7, 0x6e3e, 0x743f,
	0x9b42, 0x5ffd, 0x60da, 0x7b0f, 0x54c4, 0x5f18, 0x6c5e, 0x6cd3, 0x6d2a, 0x70d8, 0x7d05, 0x8679, 0x8a0c, 0x9d3b, 0x5316, 0x548c,
	0x5b05, 0x6a3a, 0x706b, 0x7575, 0x798d, 0x79be, 0x82b1, 0x83ef, 0x8a71, 0x8b41, 0x8ca8, 0x9774, 0x64f4, 0x652b, 0x78ba, 0x78bb,
	0x7a6b, 0x4e38, 0x559a, 0x5950, 0x5ba6, 0x5e7b, 0x60a3, 0x63db, 0x6b61, 0x6665, 0x6853, 0x6e19, 0x7165, 0x74b0, 0x7d08, 0x9084,
	0x9a69, 0x9c25, 0x6d3b, 0x6ed1, 0x733e, 0x8c41, 0x95ca, 0x51f0, 0x5e4c, 0x5fa8, 0x604d, 0x60f6, 0x6130, 0x614c, 0x6643, 0x6644,
	0x69a5, 0x6cc1, 0x6e5f, 0x6ec9, 0x6f62, 0x714c, 0x749c, 0x7687, 0x7bc1, 0x7c27, 0x8352, 0x8757, 0x9051, 0x968d, 0x9ec3, 0x532f,
	0x56de, 0x5efb, 0x5f8a, 0x6062, 0x6094, 0x61f7, 0x6666, 0x6703, 0x6a9c, 0x6dee, 0x6fae, 0x7070, 0x736a, 0x7e6a, 0x81be, 0x8334,
	0x86d4, 0x8aa8, 0x8cc4, 0x5283, 0x7372, 0x5b96, 0x6a6b, 0x9404, 0x54ee, 0x5686, 0x5b5d, 0x6548, 0x6585, 0x66c9, 0x689f, 0x6d8d,
	0x6dc6, 0x723b, 0x80b4, 0x9175, 0x9a4d, 0x4faf, 0x5019, 0x539a, 0x540e, 0x543c, 0x5589, 0x55c5, 0x5e3f, 0x5f8c, 0x673d, 0x7166,
	0x73dd, 0x9005, 0x52db, 0x52f3, 0x5864, 0x58ce, 0x7104, 0x718f, 0x71fb, 0x85b0, 0x8a13, 0x6688, 0x85a8, 0x55a7, 0x6684, 0x714a,
	0x8431, 0x5349, 0x5599, 0x6bc1, 0x5f59, 0x5fbd, 0x63ee, 0x6689, 0x7147, 0x8af1, 0x8f1d, 0x9ebe, 0x4f11, 0x643a, 0x70cb, 0x7566,
	0x8667, 0x6064, 0x8b4e, 0x9df8, 0x5147, 0x51f6, 0x5308, 0x6d36, 0x80f8, 0x9ed1, 0x6615, 0x6b23, 0x7098, 0x75d5, 0x5403, 0x5c79,
	0x7d07, 0x8a16, 0x6b20, 0x6b3d, 0x6b46, 0x5438, 0x6070, 0x6d3d, 0x7fd5, 0x8208, 0x50d6, 0x51de, 0x559c, 0x566b, 0x56cd, 0x59ec,
	0x5b09, 0x5e0c, 0x6199, 0x6198, 0x6231, 0x665e, 0x66e6, 0x7199, 0x71b9, 0x71ba, 0x72a7, 0x79a7, 0x7a00, 0x7fb2, 0x8a70,
}
