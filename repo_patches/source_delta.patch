From 30cf3bf5d98a85513e2a3a60c04f228ddbba8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 01/50] fix: compact header l means Content-Length only

The single-letter form l also overwrote Expires, Max-Forwards and
Min-Expires with the body length.
---
 sip/msg_parse.go | 2893 ++++++++++++++++++++++------------------------
 sip/sip.rl       |    8 +-
 2 files changed, 1358 insertions(+), 1543 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..8b438a8 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 765
+const msg_first_final int = 758
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 765:
-		goto st_case_765
+	case 758:
+		goto st_case_758
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 766:
-		goto st_case_766
+	case 759:
+		goto st_case_759
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 767:
-		goto st_case_767
+	case 760:
+		goto st_case_760
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 768:
-		goto st_case_768
+	case 761:
+		goto st_case_761
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 769:
-		goto st_case_769
+	case 762:
+		goto st_case_762
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 770:
-		goto st_case_770
+	case 763:
+		goto st_case_763
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 771:
-		goto st_case_771
+	case 764:
+		goto st_case_764
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 772:
-		goto st_case_772
+	case 765:
+		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 773:
-		goto st_case_773
+	case 766:
+		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 774:
-		goto st_case_774
+	case 767:
+		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
+	case 768:
+		goto st_case_768
+	case 769:
+		goto st_case_769
+	case 770:
+		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 778:
-		goto st_case_778
+	case 771:
+		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 779:
-		goto st_case_779
+	case 772:
+		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -672,8 +672,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 780:
-		goto st_case_780
+	case 773:
+		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -690,8 +690,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 781:
-		goto st_case_781
+	case 774:
+		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1638,20 +1638,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_756
 	case 757:
 		goto st_case_757
-	case 758:
-		goto st_case_758
-	case 759:
-		goto st_case_759
-	case 760:
-		goto st_case_760
-	case 761:
-		goto st_case_761
-	case 762:
-		goto st_case_762
-	case 763:
-		goto st_case_763
-	case 764:
-		goto st_case_764
 	}
 	goto st_out
 	st_case_1:
@@ -1698,7 +1684,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1679
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1700,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1695
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1747,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1742
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1763,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1758
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1780,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1775
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1846,7 +1832,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1827
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1874,7 +1860,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1900,7 +1886,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1881
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1908,13 +1894,13 @@ tr42:
 tr16:
 //line sip.rl:257
  {goto st280 } 
-	goto st765
-	st765:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof758
 		}
-	st_case_765:
-//line msg_parse.go:1909
+	st_case_758:
+//line msg_parse.go:1895
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1913,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1908
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2064,7 +2050,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2045
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2092,7 +2078,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2073
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2120,7 +2106,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2101
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2136,7 +2122,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2117
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2152,7 +2138,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2133
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2232,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2227
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2306,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2301
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2331,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2326
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2368,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2363
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2396,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2391
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2424,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2419
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2452,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2447
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2480,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2475
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2534,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2529
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2683,7 +2669,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2664
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2713,7 +2699,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2694
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2955,7 +2941,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2936
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2963,13 +2949,13 @@ tr51:
 tr65:
 //line sip.rl:257
  {goto st280 } 
-	goto st766
-	st766:
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof759
 		}
-	st_case_766:
-//line msg_parse.go:2964
+	st_case_759:
+//line msg_parse.go:2950
 		goto st0
 tr52:
 //line sip.rl:228
@@ -2982,7 +2968,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2963
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3071,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3127,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3159,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3154
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3196,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3191
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3224,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3219
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3252,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3247
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3280,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3275
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3308,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3303
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3336,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3331
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3353,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3348
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3577,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3652,7 +3638,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3633
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3686,7 +3672,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3667
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3735,7 +3721,7 @@ tr106:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st767
+	goto st760
 tr110:
 //line sip.rl:167
 
@@ -3752,7 +3738,7 @@ tr110:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st767
+	goto st760
 tr122:
 //line sip.rl:167
 
@@ -3766,13 +3752,13 @@ tr122:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st767
-	st767:
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof760
 		}
-	st_case_767:
-//line msg_parse.go:3767
+	st_case_760:
+//line msg_parse.go:3753
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3818,7 +3804,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3799
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3889,7 +3875,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3870
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3938,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3933
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4075,7 +4061,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4056
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4138,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4133
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4194,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4189
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4228,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4223
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4265,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4260
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4293,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4288
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4321,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4316
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4349,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4344
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4377,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4372
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4405,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4400
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4422,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4417
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4522,7 +4508,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4503
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4592,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4661,7 +4647,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4691,7 +4677,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4672
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4735,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4730
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4804,7 +4790,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4834,7 +4820,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4815
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4878,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4950,7 +4936,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4931
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +4983,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:4978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5050,7 +5036,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5031
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5084,7 +5070,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5129,7 +5115,7 @@ tr184:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st768
+	goto st761
 tr193:
 //line sip.rl:72
 
@@ -5142,7 +5128,7 @@ tr193:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st768
+	goto st761
 tr199:
 //line sip.rl:141
 
@@ -5152,13 +5138,13 @@ tr199:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st768
-	st768:
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof761
 		}
-	st_case_768:
-//line msg_parse.go:5153
+	st_case_761:
+//line msg_parse.go:5139
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5204,7 +5190,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5185
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5235,7 +5221,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5216
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5297,7 +5283,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5278
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5405,7 +5391,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5386
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5457,7 +5443,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5438
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5510,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5505
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5555,7 +5541,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5536
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5591,7 +5577,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5572
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5713,7 +5699,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5694
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5818,7 +5804,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5799
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5888,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5883
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5963,7 +5949,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5944
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5997,7 +5983,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:5978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6042,7 +6028,7 @@ tr230:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st769
+	goto st762
 tr234:
 //line sip.rl:210
 
@@ -6055,7 +6041,7 @@ tr234:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st769
+	goto st762
 tr246:
 //line sip.rl:210
 
@@ -6069,13 +6055,13 @@ tr246:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st769
-	st769:
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof762
 		}
-	st_case_769:
-//line msg_parse.go:6070
+	st_case_762:
+//line msg_parse.go:6056
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6121,7 +6107,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6102
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6192,7 +6178,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6173
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6241,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6236
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6378,7 +6364,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6359
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6441,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6436
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6497,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6492
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6531,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6526
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6568,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6563
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6596,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6591
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6624,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6619
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6652,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6647
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6680,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6675
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6708,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6703
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6725,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6720
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6825,7 +6811,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6806
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6926,7 +6912,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6907
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6966,7 +6952,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6947
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +6973,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:6968
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7084,7 +7070,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7152,7 +7138,7 @@ tr285:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st770
+	goto st763
 tr289:
 //line sip.rl:72
 
@@ -7161,7 +7147,7 @@ tr289:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st770
+	goto st763
 tr293:
 //line sip.rl:214
 
@@ -7171,13 +7157,13 @@ tr293:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st770
-	st770:
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof763
 		}
-	st_case_770:
-//line msg_parse.go:7172
+	st_case_763:
+//line msg_parse.go:7158
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7391,7 +7377,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7372
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7419,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7414
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7495,7 +7481,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7476
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7559,7 +7545,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7540
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7591,7 +7577,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7637,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7632
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7705,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7761,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7756
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7791,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7786
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7828,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7823
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7856,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7851
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7884,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7879
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7912,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7907
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7940,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7935
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7968,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7963
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +7985,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:7980
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8141,7 +8127,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8207,7 +8193,7 @@ tr345:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st771
+	goto st764
 tr349:
 //line sip.rl:72
 
@@ -8216,7 +8202,7 @@ tr349:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st771
+	goto st764
 tr375:
 //line sip.rl:214
 
@@ -8226,13 +8212,13 @@ tr375:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st771
-	st771:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof764
 		}
-	st_case_771:
-//line msg_parse.go:8227
+	st_case_764:
+//line msg_parse.go:8213
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8343,7 +8329,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8324
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8388,7 +8374,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8369
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8454,7 +8440,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8435
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8499,13 +8485,13 @@ tr361:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st772
-	st772:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof765
 		}
-	st_case_772:
-//line msg_parse.go:8500
+	st_case_765:
+//line msg_parse.go:8486
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8544,7 +8530,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8525
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8591,7 +8577,7 @@ tr356:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st773
+	goto st766
 tr366:
 //line sip.rl:72
 
@@ -8600,13 +8586,13 @@ tr366:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st773
-	st773:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof766
 		}
-	st_case_773:
-//line msg_parse.go:8601
+	st_case_766:
+//line msg_parse.go:8587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8663,7 +8649,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8644
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8729,7 +8715,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8710
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8768,13 +8754,13 @@ tr371:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st774
-	st774:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof767
 		}
-	st_case_774:
-//line msg_parse.go:8769
+	st_case_767:
+//line msg_parse.go:8755
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8813,7 +8799,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8794
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8859,13 +8845,13 @@ tr367:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st775
-	st775:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof775
+			goto _test_eof768
 		}
-	st_case_775:
-//line msg_parse.go:8860
+	st_case_768:
+//line msg_parse.go:8846
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8938,13 +8924,13 @@ tr357:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st776
-	st776:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof776
+			goto _test_eof769
 		}
-	st_case_776:
-//line msg_parse.go:8939
+	st_case_769:
+//line msg_parse.go:8925
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9017,7 +9003,7 @@ tr358:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st777
+	goto st770
 tr368:
 //line sip.rl:205
 
@@ -9031,13 +9017,13 @@ tr368:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st777
-	st777:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof777
+			goto _test_eof770
 		}
-	st_case_777:
-//line msg_parse.go:9032
+	st_case_770:
+//line msg_parse.go:9018
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9054,7 +9040,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9035
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9102,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9097
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9228,7 +9214,7 @@ tr377:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr382:
 //line sip.rl:189
 
@@ -9241,7 +9227,7 @@ tr382:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr386:
 //line sip.rl:189
 
@@ -9254,13 +9240,13 @@ tr386:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st778
-	st778:
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof778
+			goto _test_eof771
 		}
-	st_case_778:
-//line msg_parse.go:9255
+	st_case_771:
+//line msg_parse.go:9241
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9324,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9319
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9435,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9430
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9489,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9484
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9505,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9500
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9521,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9516
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9537,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9532
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9553,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9548
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,7 +9569,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9564
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9600,13 +9586,13 @@ tr403:
 }
 //line sip.rl:257
  {goto st280 } 
-	goto st779
-	st779:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof779
+			goto _test_eof772
 		}
-	st_case_779:
-//line msg_parse.go:9601
+	st_case_772:
+//line msg_parse.go:9587
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9605,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9600
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9729,7 +9715,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9710
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9750,7 +9736,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9731
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9787,13 +9773,13 @@ value=nil
 
 //line sip.rl:258
  {goto st263 } 
-	goto st780
-	st780:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof780
+			goto _test_eof773
 		}
-	st_case_780:
-//line msg_parse.go:9788
+	st_case_773:
+//line msg_parse.go:9774
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9850,7 +9836,7 @@ value=nil
 		case 126:
 			goto tr414
 		case 269:
-			goto st764
+			goto st757
 		}
 		switch {
 		case _widec < 48:
@@ -9891,7 +9877,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9872
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9910,25 +9896,25 @@ tr414:
 		case 75:
 			goto st504
 		case 76:
-			goto st505
+			goto st434
 		case 77:
-			goto st512
+			goto st505
 		case 79:
-			goto st556
+			goto st549
 		case 80:
-			goto st568
+			goto st561
 		case 82:
-			goto st626
+			goto st619
 		case 83:
-			goto st686
+			goto st679
 		case 84:
-			goto st704
+			goto st697
 		case 85:
-			goto st714
+			goto st707
 		case 86:
-			goto st734
+			goto st727
 		case 87:
-			goto st742
+			goto st735
 		case 97:
 			goto st282
 		case 98:
@@ -9946,25 +9932,25 @@ tr414:
 		case 107:
 			goto st504
 		case 108:
-			goto st505
+			goto st434
 		case 109:
-			goto st512
+			goto st505
 		case 111:
-			goto st556
+			goto st549
 		case 112:
-			goto st568
+			goto st561
 		case 114:
-			goto st626
+			goto st619
 		case 115:
-			goto st686
+			goto st679
 		case 116:
-			goto st704
+			goto st697
 		case 117:
-			goto st714
+			goto st707
 		case 118:
-			goto st734
+			goto st727
 		case 119:
-			goto st742
+			goto st735
 		}
 		goto tr416
 	st282:
@@ -10049,97 +10035,91 @@ tr616:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr651:
+tr650:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr664:
+tr663:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr669:
+tr668:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr698:
+tr697:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr700:
+tr699:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr739:
+tr731:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr767:
+tr759:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr797:
+tr789:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr816:
+tr808:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr826:
+tr818:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr834:
+tr826:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr836:
+tr828:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr886:
+tr878:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr892:
+tr884:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr902:
+tr894:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr909:
+tr901:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr917:
+tr909:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr941:
+tr933:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr943:
-//line sip.rl:454
-value=&msg.Allow
-//line sip.rl:455
-value=&msg.AllowEvents
-	goto st283
-tr956:
+tr946:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr966:
+tr956:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr983:
+tr973:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr999:
+tr989:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10148,7 +10128,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10123
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10214,97 +10194,91 @@ tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr652:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr665:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr670:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr699:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr701:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr740:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr768:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr798:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr817:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr827:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr835:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr837:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr887:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr893:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr903:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr910:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr918:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr942:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr944:
-//line sip.rl:454
-value=&msg.Allow
-//line sip.rl:455
-value=&msg.AllowEvents
-	goto st284
-tr957:
+tr947:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr967:
+tr957:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr984:
+tr974:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr1000:
+tr990:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10313,7 +10287,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10282
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10343,7 +10317,7 @@ value=&msg.WWWAuthenticate
 tr559:
 //line sip.rl:257
  {goto st280 } 
-	goto st781
+	goto st774
 tr442:
 //line sip.rl:72
 
@@ -10352,7 +10326,7 @@ tr442:
 
 //line sip.rl:258
  {goto st263 } 
-	goto st781
+	goto st774
 tr541:
 //line sip.rl:72
 
@@ -10361,7 +10335,7 @@ tr541:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st781
+	goto st774
 tr576:
 //line sip.rl:534
 value=nil
@@ -10372,8 +10346,8 @@ value=nil
 
 //line sip.rl:252
  {goto st256 } 
-	goto st781
-tr971:
+	goto st774
+tr961:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10385,19 +10359,19 @@ tr971:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st781
-tr1001:
+	goto st774
+tr991:
 //line sip.rl:76
 
-	{p++; cs = 781; goto _out }
+	{p++; cs = 774; goto _out }
 
-	goto st781
-	st781:
+	goto st774
+	st774:
 		if p++; p == pe {
-			goto _test_eof781
+			goto _test_eof774
 		}
-	st_case_781:
-//line msg_parse.go:10392
+	st_case_774:
+//line msg_parse.go:10366
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11637,7 +11611,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11781,7 +11755,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
+tr642:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11792,7 +11766,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11761
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11984,27 +11958,27 @@ tr572:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
+tr682:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr788:
+tr780:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr855:
+tr847:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr879:
+tr871:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr907:
+tr899:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr930:
+tr922:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12013,7 +11987,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:11982
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12027,27 +12001,27 @@ tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr789:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr856:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr880:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr908:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr931:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12056,7 +12030,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12025
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12604,10 +12578,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
-tr624:
+tr623:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12615,7 +12589,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
-tr626:
+tr625:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12626,7 +12600,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12595
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12638,7 +12612,7 @@ tr626:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
 	st438:
@@ -12674,7 +12648,7 @@ tr626:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
 	st441:
@@ -12800,10 +12774,10 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
-tr637:
+tr636:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12814,7 +12788,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12783
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,7 +12805,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st451:
@@ -12852,13 +12826,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		case 525:
 			goto st453
 		}
@@ -12867,25 +12841,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr640
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
-tr641:
+tr640:
 //line sip.rl:80
 
 	mark = p
@@ -12896,7 +12870,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12865
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12914,7 +12888,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr642
 		}
 		switch {
 		case _widec < 48:
@@ -12971,35 +12945,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr640
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
 	st456:
@@ -13035,7 +13009,7 @@ tr641:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st459:
@@ -13081,11 +13055,11 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr650
 		case 32:
-			goto tr651
+			goto tr650
 		case 58:
-			goto tr652
+			goto tr651
 		}
 		goto tr416
 	st463:
@@ -13214,11 +13188,11 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr663
 		case 32:
-			goto tr664
+			goto tr663
 		case 58:
-			goto tr665
+			goto tr664
 		}
 		goto tr416
 	st473:
@@ -13264,11 +13238,11 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr668
 		case 32:
-			goto tr669
+			goto tr668
 		case 58:
-			goto tr670
+			goto tr669
 		}
 		goto tr416
 	st477:
@@ -13380,10 +13354,10 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
-tr678:
+tr677:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13391,7 +13365,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr680:
+tr679:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13402,7 +13376,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13371
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13414,7 +13388,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr679
 		}
 		goto st0
 	st486:
@@ -13450,7 +13424,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
 	st489:
@@ -13460,11 +13434,11 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		case 82:
 			goto st490
 		case 114:
@@ -13502,11 +13476,11 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		}
 		goto tr416
 	st493:
@@ -13636,11 +13610,11 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr697
 		case 32:
-			goto tr698
+			goto tr697
 		case 58:
-			goto tr699
+			goto tr698
 		}
 		goto tr416
 	st504:
@@ -13650,11 +13624,11 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
 		goto tr416
 	st505:
@@ -13664,11 +13638,19 @@ tr680:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto tr572
 		case 32:
-			goto st506
+			goto tr572
 		case 58:
-			goto st507
+			goto tr573
+		case 65:
+			goto st506
+		case 73:
+			goto st523
+		case 97:
+			goto st506
+		case 105:
+			goto st523
 		}
 		goto tr416
 	st506:
@@ -13677,158 +13659,79 @@ tr680:
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto st506
-		case 32:
-			goto st506
-		case 58:
+		case 88:
+			goto st507
+		case 120:
 			goto st507
 		}
-		goto st0
+		goto tr416
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st507
-		case 32:
-			goto st507
-		case 525:
-			goto st509
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr704
+		if data[p] == 45 {
+			goto st508
 		}
-		goto st0
-tr704:
-//line sip.rl:493
-clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
-tr706:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
+		goto tr416
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+		switch data[p] {
+		case 70:
+			goto st509
+		case 102:
+			goto st509
 		}
-		goto st0
+		goto tr416
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st510
+		case 111:
 			goto st510
 		}
-		goto st0
+		goto tr416
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st511
-		case 32:
+		case 114:
 			goto st511
 		}
-		goto st0
+		goto tr416
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 9:
-			goto st511
-		case 32:
-			goto st511
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr704
+		case 87:
+			goto st512
+		case 119:
+			goto st512
 		}
-		goto st0
+		goto tr416
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
-			goto tr572
-		case 32:
-			goto tr572
-		case 58:
-			goto tr573
 		case 65:
 			goto st513
-		case 73:
-			goto st530
 		case 97:
 			goto st513
-		case 105:
-			goto st530
 		}
 		goto tr416
 	st513:
@@ -13837,9 +13740,9 @@ tr706:
 		}
 	st_case_513:
 		switch data[p] {
-		case 88:
+		case 82:
 			goto st514
-		case 120:
+		case 114:
 			goto st514
 		}
 		goto tr416
@@ -13848,7 +13751,10 @@ tr706:
 			goto _test_eof514
 		}
 	st_case_514:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st515
+		case 100:
 			goto st515
 		}
 		goto tr416
@@ -13858,9 +13764,9 @@ tr706:
 		}
 	st_case_515:
 		switch data[p] {
-		case 70:
+		case 83:
 			goto st516
-		case 102:
+		case 115:
 			goto st516
 		}
 		goto tr416
@@ -13870,10 +13776,12 @@ tr706:
 		}
 	st_case_516:
 		switch data[p] {
-		case 79:
+		case 9:
 			goto st517
-		case 111:
+		case 32:
 			goto st517
+		case 58:
+			goto st518
 		}
 		goto tr416
 	st517:
@@ -13882,84 +13790,122 @@ tr706:
 		}
 	st_case_517:
 		switch data[p] {
-		case 82:
-			goto st518
-		case 114:
+		case 9:
+			goto st517
+		case 32:
+			goto st517
+		case 58:
 			goto st518
 		}
-		goto tr416
+		goto st0
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
-		switch data[p] {
-		case 87:
-			goto st519
-		case 119:
-			goto st519
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 525:
+			goto st520
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr715
+		}
+		goto st0
+tr715:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
+tr717:
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		switch data[p] {
-		case 65:
-			goto st520
-		case 97:
-			goto st520
-		}
-		goto tr416
-	st520:
-		if p++; p == pe {
-			goto _test_eof520
+//line msg_parse.go:13836
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr717
+		}
+		goto st0
+	st520:
+		if p++; p == pe {
+			goto _test_eof520
 		}
 	st_case_520:
-		switch data[p] {
-		case 82:
-			goto st521
-		case 114:
+		if data[p] == 10 {
 			goto st521
 		}
-		goto tr416
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st522
-		case 100:
+		case 32:
 			goto st522
 		}
-		goto tr416
+		goto st0
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 83:
-			goto st523
-		case 115:
-			goto st523
+		case 9:
+			goto st522
+		case 32:
+			goto st522
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr715
+		}
+		goto st0
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st524
-		case 32:
+		case 78:
+			goto st534
+		case 109:
 			goto st524
-		case 58:
-			goto st525
+		case 110:
+			goto st534
 		}
 		goto tr416
 	st524:
@@ -13968,122 +13914,79 @@ tr706:
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
-			goto st524
-		case 32:
-			goto st524
-		case 58:
+		case 69:
+			goto st525
+		case 101:
 			goto st525
 		}
-		goto st0
+		goto tr416
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st525
-		case 32:
-			goto st525
-		case 525:
-			goto st527
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr723
+		if data[p] == 45 {
+			goto st526
 		}
-		goto st0
-tr723:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
-tr725:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
+		goto tr416
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+		switch data[p] {
+		case 86:
+			goto st527
+		case 118:
+			goto st527
 		}
-		goto st0
+		goto tr416
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st528
+		case 101:
 			goto st528
 		}
-		goto st0
+		goto tr416
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st529
-		case 32:
+		case 114:
 			goto st529
 		}
-		goto st0
+		goto tr416
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 9:
-			goto st529
-		case 32:
-			goto st529
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr723
+		case 83:
+			goto st530
+		case 115:
+			goto st530
 		}
-		goto st0
+		goto tr416
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 77:
+		case 73:
 			goto st531
-		case 78:
-			goto st541
-		case 109:
+		case 105:
 			goto st531
-		case 110:
-			goto st541
 		}
 		goto tr416
 	st531:
@@ -14092,9 +13995,9 @@ tr725:
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st532
-		case 101:
+		case 111:
 			goto st532
 		}
 		goto tr416
@@ -14103,7 +14006,10 @@ tr725:
 			goto _test_eof532
 		}
 	st_case_532:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st533
+		case 110:
 			goto st533
 		}
 		goto tr416
@@ -14113,10 +14019,12 @@ tr725:
 		}
 	st_case_533:
 		switch data[p] {
-		case 86:
-			goto st534
-		case 118:
-			goto st534
+		case 9:
+			goto tr731
+		case 32:
+			goto tr731
+		case 58:
+			goto tr732
 		}
 		goto tr416
 	st534:
@@ -14124,10 +14032,7 @@ tr725:
 			goto _test_eof534
 		}
 	st_case_534:
-		switch data[p] {
-		case 69:
-			goto st535
-		case 101:
+		if data[p] == 45 {
 			goto st535
 		}
 		goto tr416
@@ -14137,9 +14042,9 @@ tr725:
 		}
 	st_case_535:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st536
-		case 114:
+		case 101:
 			goto st536
 		}
 		goto tr416
@@ -14149,9 +14054,9 @@ tr725:
 		}
 	st_case_536:
 		switch data[p] {
-		case 83:
+		case 88:
 			goto st537
-		case 115:
+		case 120:
 			goto st537
 		}
 		goto tr416
@@ -14161,9 +14066,9 @@ tr725:
 		}
 	st_case_537:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st538
-		case 105:
+		case 112:
 			goto st538
 		}
 		goto tr416
@@ -14173,9 +14078,9 @@ tr725:
 		}
 	st_case_538:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st539
-		case 111:
+		case 105:
 			goto st539
 		}
 		goto tr416
@@ -14185,9 +14090,9 @@ tr725:
 		}
 	st_case_539:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st540
-		case 110:
+		case 114:
 			goto st540
 		}
 		goto tr416
@@ -14197,12 +14102,10 @@ tr725:
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr739
-		case 32:
-			goto tr739
-		case 58:
-			goto tr740
+		case 69:
+			goto st541
+		case 101:
+			goto st541
 		}
 		goto tr416
 	st541:
@@ -14210,7 +14113,10 @@ tr725:
 			goto _test_eof541
 		}
 	st_case_541:
-		if data[p] == 45 {
+		switch data[p] {
+		case 83:
+			goto st542
+		case 115:
 			goto st542
 		}
 		goto tr416
@@ -14220,10 +14126,12 @@ tr725:
 		}
 	st_case_542:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st543
-		case 101:
+		case 32:
 			goto st543
+		case 58:
+			goto st544
 		}
 		goto tr416
 	st543:
@@ -14232,72 +14140,108 @@ tr725:
 		}
 	st_case_543:
 		switch data[p] {
-		case 88:
-			goto st544
-		case 120:
+		case 9:
+			goto st543
+		case 32:
+			goto st543
+		case 58:
 			goto st544
 		}
-		goto tr416
+		goto st0
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		switch data[p] {
-		case 80:
-			goto st545
-		case 112:
-			goto st545
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 525:
+			goto st546
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr743
+		}
+		goto st0
+tr743:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
+tr745:
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		switch data[p] {
-		case 73:
-			goto st546
-		case 105:
-			goto st546
+//line msg_parse.go:14186
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr745
+		}
+		goto st0
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		switch data[p] {
-		case 82:
-			goto st547
-		case 114:
+		if data[p] == 10 {
 			goto st547
 		}
-		goto tr416
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st548
-		case 101:
+		case 32:
 			goto st548
 		}
-		goto tr416
+		goto st0
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 83:
-			goto st549
-		case 115:
-			goto st549
+		case 9:
+			goto st548
+		case 32:
+			goto st548
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr743
+		}
+		goto st0
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
@@ -14305,11 +14249,15 @@ tr725:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto st550
+			goto tr668
 		case 32:
-			goto st550
+			goto tr668
 		case 58:
-			goto st551
+			goto tr669
+		case 82:
+			goto st550
+		case 114:
+			goto st550
 		}
 		goto tr416
 	st550:
@@ -14318,123 +14266,81 @@ tr725:
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto st550
-		case 32:
-			goto st550
-		case 58:
-			goto st551
-		}
-		goto st0
-	st551:
-		if p++; p == pe {
-			goto _test_eof551
-		}
-	st_case_551:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 71:
 			goto st551
-		case 32:
+		case 103:
 			goto st551
-		case 525:
-			goto st553
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr751
 		}
-		goto st0
-tr751:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
-tr753:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
+		goto tr416
+	st551:
+		if p++; p == pe {
+			goto _test_eof551
+		}
+	st_case_551:
+		switch data[p] {
+		case 65:
+			goto st552
+		case 97:
+			goto st552
+		}
+		goto tr416
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+		switch data[p] {
+		case 78:
+			goto st553
+		case 110:
+			goto st553
 		}
-		goto st0
+		goto tr416
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st554
+		case 105:
 			goto st554
 		}
-		goto st0
+		goto tr416
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 9:
+		case 90:
 			goto st555
-		case 32:
+		case 122:
 			goto st555
 		}
-		goto st0
+		goto tr416
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 9:
-			goto st555
-		case 32:
-			goto st555
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr751
+		case 65:
+			goto st556
+		case 97:
+			goto st556
 		}
-		goto st0
+		goto tr416
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 9:
-			goto tr669
-		case 32:
-			goto tr669
-		case 58:
-			goto tr670
-		case 82:
+		case 84:
 			goto st557
-		case 114:
+		case 116:
 			goto st557
 		}
 		goto tr416
@@ -14444,9 +14350,9 @@ tr753:
 		}
 	st_case_557:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st558
-		case 103:
+		case 105:
 			goto st558
 		}
 		goto tr416
@@ -14456,9 +14362,9 @@ tr753:
 		}
 	st_case_558:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st559
-		case 97:
+		case 111:
 			goto st559
 		}
 		goto tr416
@@ -14480,10 +14386,12 @@ tr753:
 		}
 	st_case_560:
 		switch data[p] {
-		case 73:
-			goto st561
-		case 105:
-			goto st561
+		case 9:
+			goto tr759
+		case 32:
+			goto tr759
+		case 58:
+			goto tr760
 		}
 		goto tr416
 	st561:
@@ -14492,10 +14400,12 @@ tr753:
 		}
 	st_case_561:
 		switch data[p] {
-		case 90:
-			goto st562
-		case 122:
+		case 45:
 			goto st562
+		case 82:
+			goto st580
+		case 114:
+			goto st580
 		}
 		goto tr416
 	st562:
@@ -14516,9 +14426,9 @@ tr753:
 		}
 	st_case_563:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st564
-		case 116:
+		case 115:
 			goto st564
 		}
 		goto tr416
@@ -14528,9 +14438,9 @@ tr753:
 		}
 	st_case_564:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st565
-		case 105:
+		case 115:
 			goto st565
 		}
 		goto tr416
@@ -14540,9 +14450,9 @@ tr753:
 		}
 	st_case_565:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st566
-		case 111:
+		case 101:
 			goto st566
 		}
 		goto tr416
@@ -14552,9 +14462,9 @@ tr753:
 		}
 	st_case_566:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st567
-		case 110:
+		case 114:
 			goto st567
 		}
 		goto tr416
@@ -14564,12 +14474,10 @@ tr753:
 		}
 	st_case_567:
 		switch data[p] {
-		case 9:
-			goto tr767
-		case 32:
-			goto tr767
-		case 58:
-			goto tr768
+		case 84:
+			goto st568
+		case 116:
+			goto st568
 		}
 		goto tr416
 	st568:
@@ -14578,12 +14486,10 @@ tr753:
 		}
 	st_case_568:
 		switch data[p] {
-		case 45:
+		case 69:
+			goto st569
+		case 101:
 			goto st569
-		case 82:
-			goto st587
-		case 114:
-			goto st587
 		}
 		goto tr416
 	st569:
@@ -14592,9 +14498,9 @@ tr753:
 		}
 	st_case_569:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st570
-		case 97:
+		case 100:
 			goto st570
 		}
 		goto tr416
@@ -14603,10 +14509,7 @@ tr753:
 			goto _test_eof570
 		}
 	st_case_570:
-		switch data[p] {
-		case 83:
-			goto st571
-		case 115:
+		if data[p] == 45 {
 			goto st571
 		}
 		goto tr416
@@ -14616,9 +14519,9 @@ tr753:
 		}
 	st_case_571:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st572
-		case 115:
+		case 105:
 			goto st572
 		}
 		goto tr416
@@ -14628,9 +14531,9 @@ tr753:
 		}
 	st_case_572:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st573
-		case 101:
+		case 100:
 			goto st573
 		}
 		goto tr416
@@ -14640,9 +14543,9 @@ tr753:
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st574
-		case 114:
+		case 101:
 			goto st574
 		}
 		goto tr416
@@ -14652,9 +14555,9 @@ tr753:
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st575
-		case 116:
+		case 110:
 			goto st575
 		}
 		goto tr416
@@ -14664,9 +14567,9 @@ tr753:
 		}
 	st_case_575:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st576
-		case 101:
+		case 116:
 			goto st576
 		}
 		goto tr416
@@ -14676,9 +14579,9 @@ tr753:
 		}
 	st_case_576:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st577
-		case 100:
+		case 105:
 			goto st577
 		}
 		goto tr416
@@ -14687,7 +14590,10 @@ tr753:
 			goto _test_eof577
 		}
 	st_case_577:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st578
+		case 116:
 			goto st578
 		}
 		goto tr416
@@ -14697,9 +14603,9 @@ tr753:
 		}
 	st_case_578:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st579
-		case 105:
+		case 121:
 			goto st579
 		}
 		goto tr416
@@ -14709,10 +14615,12 @@ tr753:
 		}
 	st_case_579:
 		switch data[p] {
-		case 68:
-			goto st580
-		case 100:
-			goto st580
+		case 9:
+			goto tr780
+		case 32:
+			goto tr780
+		case 58:
+			goto tr781
 		}
 		goto tr416
 	st580:
@@ -14721,10 +14629,14 @@ tr753:
 		}
 	st_case_580:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st581
-		case 101:
+		case 79:
+			goto st587
+		case 105:
 			goto st581
+		case 111:
+			goto st587
 		}
 		goto tr416
 	st581:
@@ -14733,9 +14645,9 @@ tr753:
 		}
 	st_case_581:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st582
-		case 110:
+		case 111:
 			goto st582
 		}
 		goto tr416
@@ -14745,9 +14657,9 @@ tr753:
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st583
-		case 116:
+		case 114:
 			goto st583
 		}
 		goto tr416
@@ -14794,11 +14706,11 @@ tr753:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr788
+			goto tr789
 		case 32:
-			goto tr788
-		case 58:
 			goto tr789
+		case 58:
+			goto tr790
 		}
 		goto tr416
 	st587:
@@ -14807,14 +14719,10 @@ tr753:
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
+		case 88:
 			goto st588
-		case 79:
-			goto st594
-		case 105:
+		case 120:
 			goto st588
-		case 111:
-			goto st594
 		}
 		goto tr416
 	st588:
@@ -14823,9 +14731,9 @@ tr753:
 		}
 	st_case_588:
 		switch data[p] {
-		case 79:
+		case 89:
 			goto st589
-		case 111:
+		case 121:
 			goto st589
 		}
 		goto tr416
@@ -14834,10 +14742,7 @@ tr753:
 			goto _test_eof589
 		}
 	st_case_589:
-		switch data[p] {
-		case 82:
-			goto st590
-		case 114:
+		if data[p] == 45 {
 			goto st590
 		}
 		goto tr416
@@ -14847,10 +14752,14 @@ tr753:
 		}
 	st_case_590:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st591
-		case 105:
+		case 82:
+			goto st612
+		case 97:
 			goto st591
+		case 114:
+			goto st612
 		}
 		goto tr416
 	st591:
@@ -14859,9 +14768,9 @@ tr753:
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st592
-		case 116:
+		case 117:
 			goto st592
 		}
 		goto tr416
@@ -14871,9 +14780,9 @@ tr753:
 		}
 	st_case_592:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st593
-		case 121:
+		case 116:
 			goto st593
 		}
 		goto tr416
@@ -14883,12 +14792,10 @@ tr753:
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr797
-		case 32:
-			goto tr797
-		case 58:
-			goto tr798
+		case 72:
+			goto st594
+		case 104:
+			goto st594
 		}
 		goto tr416
 	st594:
@@ -14897,10 +14804,14 @@ tr753:
 		}
 	st_case_594:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st595
-		case 120:
+		case 79:
+			goto st603
+		case 101:
 			goto st595
+		case 111:
+			goto st603
 		}
 		goto tr416
 	st595:
@@ -14909,9 +14820,9 @@ tr753:
 		}
 	st_case_595:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st596
-		case 121:
+		case 110:
 			goto st596
 		}
 		goto tr416
@@ -14920,7 +14831,10 @@ tr753:
 			goto _test_eof596
 		}
 	st_case_596:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st597
+		case 116:
 			goto st597
 		}
 		goto tr416
@@ -14930,14 +14844,10 @@ tr753:
 		}
 	st_case_597:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st598
-		case 82:
-			goto st619
-		case 97:
+		case 105:
 			goto st598
-		case 114:
-			goto st619
 		}
 		goto tr416
 	st598:
@@ -14946,9 +14856,9 @@ tr753:
 		}
 	st_case_598:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st599
-		case 117:
+		case 99:
 			goto st599
 		}
 		goto tr416
@@ -14958,9 +14868,9 @@ tr753:
 		}
 	st_case_599:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st600
-		case 116:
+		case 97:
 			goto st600
 		}
 		goto tr416
@@ -14970,9 +14880,9 @@ tr753:
 		}
 	st_case_600:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st601
-		case 104:
+		case 116:
 			goto st601
 		}
 		goto tr416
@@ -14984,12 +14894,8 @@ tr753:
 		switch data[p] {
 		case 69:
 			goto st602
-		case 79:
-			goto st610
 		case 101:
 			goto st602
-		case 111:
-			goto st610
 		}
 		goto tr416
 	st602:
@@ -14998,10 +14904,12 @@ tr753:
 		}
 	st_case_602:
 		switch data[p] {
-		case 78:
-			goto st603
-		case 110:
-			goto st603
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
 		goto tr416
 	st603:
@@ -15010,9 +14918,9 @@ tr753:
 		}
 	st_case_603:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st604
-		case 116:
+		case 114:
 			goto st604
 		}
 		goto tr416
@@ -15034,9 +14942,9 @@ tr753:
 		}
 	st_case_605:
 		switch data[p] {
-		case 67:
+		case 90:
 			goto st606
-		case 99:
+		case 122:
 			goto st606
 		}
 		goto tr416
@@ -15070,9 +14978,9 @@ tr753:
 		}
 	st_case_608:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st609
-		case 101:
+		case 105:
 			goto st609
 		}
 		goto tr416
@@ -15082,12 +14990,10 @@ tr753:
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr816
-		case 32:
-			goto tr816
-		case 58:
-			goto tr817
+		case 79:
+			goto st610
+		case 111:
+			goto st610
 		}
 		goto tr416
 	st610:
@@ -15096,9 +15002,9 @@ tr753:
 		}
 	st_case_610:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st611
-		case 114:
+		case 110:
 			goto st611
 		}
 		goto tr416
@@ -15108,10 +15014,12 @@ tr753:
 		}
 	st_case_611:
 		switch data[p] {
-		case 73:
-			goto st612
-		case 105:
-			goto st612
+		case 9:
+			goto tr818
+		case 32:
+			goto tr818
+		case 58:
+			goto tr819
 		}
 		goto tr416
 	st612:
@@ -15120,9 +15028,9 @@ tr753:
 		}
 	st_case_612:
 		switch data[p] {
-		case 90:
+		case 69:
 			goto st613
-		case 122:
+		case 101:
 			goto st613
 		}
 		goto tr416
@@ -15132,9 +15040,9 @@ tr753:
 		}
 	st_case_613:
 		switch data[p] {
-		case 65:
+		case 81:
 			goto st614
-		case 97:
+		case 113:
 			goto st614
 		}
 		goto tr416
@@ -15144,9 +15052,9 @@ tr753:
 		}
 	st_case_614:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st615
-		case 116:
+		case 117:
 			goto st615
 		}
 		goto tr416
@@ -15168,9 +15076,9 @@ tr753:
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st617
-		case 111:
+		case 114:
 			goto st617
 		}
 		goto tr416
@@ -15180,9 +15088,9 @@ tr753:
 		}
 	st_case_617:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st618
-		case 110:
+		case 101:
 			goto st618
 		}
 		goto tr416
@@ -15206,10 +15114,20 @@ tr753:
 		}
 	st_case_619:
 		switch data[p] {
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		case 69:
 			goto st620
+		case 79:
+			goto st675
 		case 101:
 			goto st620
+		case 111:
+			goto st675
 		}
 		goto tr416
 	st620:
@@ -15218,10 +15136,30 @@ tr753:
 		}
 	st_case_620:
 		switch data[p] {
+		case 67:
+			goto st621
+		case 70:
+			goto st631
+		case 77:
+			goto st642
+		case 80:
+			goto st655
 		case 81:
+			goto st661
+		case 84:
+			goto st666
+		case 99:
 			goto st621
+		case 102:
+			goto st631
+		case 109:
+			goto st642
+		case 112:
+			goto st655
 		case 113:
-			goto st621
+			goto st661
+		case 116:
+			goto st666
 		}
 		goto tr416
 	st621:
@@ -15230,9 +15168,9 @@ tr753:
 		}
 	st_case_621:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st622
-		case 117:
+		case 111:
 			goto st622
 		}
 		goto tr416
@@ -15242,9 +15180,9 @@ tr753:
 		}
 	st_case_622:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st623
-		case 105:
+		case 114:
 			goto st623
 		}
 		goto tr416
@@ -15254,9 +15192,9 @@ tr753:
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st624
-		case 114:
+		case 100:
 			goto st624
 		}
 		goto tr416
@@ -15265,10 +15203,7 @@ tr753:
 			goto _test_eof624
 		}
 	st_case_624:
-		switch data[p] {
-		case 69:
-			goto st625
-		case 101:
+		if data[p] == 45 {
 			goto st625
 		}
 		goto tr416
@@ -15278,12 +15213,10 @@ tr753:
 		}
 	st_case_625:
 		switch data[p] {
-		case 9:
-			goto tr834
-		case 32:
-			goto tr834
-		case 58:
-			goto tr835
+		case 82:
+			goto st626
+		case 114:
+			goto st626
 		}
 		goto tr416
 	st626:
@@ -15292,20 +15225,10 @@ tr753:
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
-		case 69:
-			goto st627
 		case 79:
-			goto st682
-		case 101:
 			goto st627
 		case 111:
-			goto st682
+			goto st627
 		}
 		goto tr416
 	st627:
@@ -15314,30 +15237,10 @@ tr753:
 		}
 	st_case_627:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st628
-		case 70:
-			goto st638
-		case 77:
-			goto st649
-		case 80:
-			goto st662
-		case 81:
-			goto st668
-		case 84:
-			goto st673
-		case 99:
+		case 117:
 			goto st628
-		case 102:
-			goto st638
-		case 109:
-			goto st649
-		case 112:
-			goto st662
-		case 113:
-			goto st668
-		case 116:
-			goto st673
 		}
 		goto tr416
 	st628:
@@ -15346,9 +15249,9 @@ tr753:
 		}
 	st_case_628:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st629
-		case 111:
+		case 116:
 			goto st629
 		}
 		goto tr416
@@ -15358,9 +15261,9 @@ tr753:
 		}
 	st_case_629:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st630
-		case 114:
+		case 101:
 			goto st630
 		}
 		goto tr416
@@ -15370,10 +15273,12 @@ tr753:
 		}
 	st_case_630:
 		switch data[p] {
-		case 68:
-			goto st631
-		case 100:
-			goto st631
+		case 9:
+			goto tr847
+		case 32:
+			goto tr847
+		case 58:
+			goto tr848
 		}
 		goto tr416
 	st631:
@@ -15381,7 +15286,10 @@ tr753:
 			goto _test_eof631
 		}
 	st_case_631:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st632
+		case 101:
 			goto st632
 		}
 		goto tr416
@@ -15403,10 +15311,12 @@ tr753:
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
-			goto st634
-		case 111:
+		case 45:
 			goto st634
+		case 82:
+			goto st637
+		case 114:
+			goto st637
 		}
 		goto tr416
 	st634:
@@ -15415,9 +15325,9 @@ tr753:
 		}
 	st_case_634:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st635
-		case 117:
+		case 116:
 			goto st635
 		}
 		goto tr416
@@ -15427,9 +15337,9 @@ tr753:
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st636
-		case 116:
+		case 111:
 			goto st636
 		}
 		goto tr416
@@ -15439,10 +15349,12 @@ tr753:
 		}
 	st_case_636:
 		switch data[p] {
-		case 69:
-			goto st637
-		case 101:
-			goto st637
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		}
 		goto tr416
 	st637:
@@ -15451,12 +15363,10 @@ tr753:
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr855
-		case 32:
-			goto tr855
-		case 58:
-			goto tr856
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
 		goto tr416
 	st638:
@@ -15465,9 +15375,9 @@ tr753:
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st639
-		case 101:
+		case 100:
 			goto st639
 		}
 		goto tr416
@@ -15476,10 +15386,7 @@ tr753:
 			goto _test_eof639
 		}
 	st_case_639:
-		switch data[p] {
-		case 82:
-			goto st640
-		case 114:
+		if data[p] == 45 {
 			goto st640
 		}
 		goto tr416
@@ -15489,12 +15396,10 @@ tr753:
 		}
 	st_case_640:
 		switch data[p] {
-		case 45:
+		case 66:
+			goto st641
+		case 98:
 			goto st641
-		case 82:
-			goto st644
-		case 114:
-			goto st644
 		}
 		goto tr416
 	st641:
@@ -15503,10 +15408,10 @@ tr753:
 		}
 	st_case_641:
 		switch data[p] {
-		case 84:
-			goto st642
-		case 116:
-			goto st642
+		case 89:
+			goto st363
+		case 121:
+			goto st363
 		}
 		goto tr416
 	st642:
@@ -15527,12 +15432,10 @@ tr753:
 		}
 	st_case_643:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
+		case 84:
+			goto st644
+		case 116:
+			goto st644
 		}
 		goto tr416
 	st644:
@@ -15552,10 +15455,7 @@ tr753:
 			goto _test_eof645
 		}
 	st_case_645:
-		switch data[p] {
-		case 68:
-			goto st646
-		case 100:
+		if data[p] == 45 {
 			goto st646
 		}
 		goto tr416
@@ -15564,7 +15464,10 @@ tr753:
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st647
+		case 112:
 			goto st647
 		}
 		goto tr416
@@ -15574,9 +15477,9 @@ tr753:
 		}
 	st_case_647:
 		switch data[p] {
-		case 66:
+		case 65:
 			goto st648
-		case 98:
+		case 97:
 			goto st648
 		}
 		goto tr416
@@ -15586,10 +15489,10 @@ tr753:
 		}
 	st_case_648:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 82:
+			goto st649
+		case 114:
+			goto st649
 		}
 		goto tr416
 	st649:
@@ -15598,9 +15501,9 @@ tr753:
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st650
-		case 111:
+		case 116:
 			goto st650
 		}
 		goto tr416
@@ -15610,9 +15513,9 @@ tr753:
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st651
-		case 116:
+		case 121:
 			goto st651
 		}
 		goto tr416
@@ -15621,10 +15524,7 @@ tr753:
 			goto _test_eof651
 		}
 	st_case_651:
-		switch data[p] {
-		case 69:
-			goto st652
-		case 101:
+		if data[p] == 45 {
 			goto st652
 		}
 		goto tr416
@@ -15633,7 +15533,10 @@ tr753:
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st653
+		case 105:
 			goto st653
 		}
 		goto tr416
@@ -15643,9 +15546,9 @@ tr753:
 		}
 	st_case_653:
 		switch data[p] {
-		case 80:
+		case 68:
 			goto st654
-		case 112:
+		case 100:
 			goto st654
 		}
 		goto tr416
@@ -15655,10 +15558,12 @@ tr753:
 		}
 	st_case_654:
 		switch data[p] {
-		case 65:
-			goto st655
-		case 97:
-			goto st655
+		case 9:
+			goto tr871
+		case 32:
+			goto tr871
+		case 58:
+			goto tr872
 		}
 		goto tr416
 	st655:
@@ -15667,9 +15572,9 @@ tr753:
 		}
 	st_case_655:
 		switch data[p] {
-		case 82:
+		case 76:
 			goto st656
-		case 114:
+		case 108:
 			goto st656
 		}
 		goto tr416
@@ -15679,9 +15584,9 @@ tr753:
 		}
 	st_case_656:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st657
-		case 116:
+		case 121:
 			goto st657
 		}
 		goto tr416
@@ -15690,10 +15595,7 @@ tr753:
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 89:
-			goto st658
-		case 121:
+		if data[p] == 45 {
 			goto st658
 		}
 		goto tr416
@@ -15702,7 +15604,10 @@ tr753:
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st659
+		case 116:
 			goto st659
 		}
 		goto tr416
@@ -15712,9 +15617,9 @@ tr753:
 		}
 	st_case_659:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st660
-		case 105:
+		case 111:
 			goto st660
 		}
 		goto tr416
@@ -15724,10 +15629,12 @@ tr753:
 		}
 	st_case_660:
 		switch data[p] {
-		case 68:
-			goto st661
-		case 100:
-			goto st661
+		case 9:
+			goto tr878
+		case 32:
+			goto tr878
+		case 58:
+			goto tr879
 		}
 		goto tr416
 	st661:
@@ -15736,12 +15643,10 @@ tr753:
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr879
-		case 32:
-			goto tr879
-		case 58:
-			goto tr880
+		case 85:
+			goto st662
+		case 117:
+			goto st662
 		}
 		goto tr416
 	st662:
@@ -15750,9 +15655,9 @@ tr753:
 		}
 	st_case_662:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st663
-		case 108:
+		case 105:
 			goto st663
 		}
 		goto tr416
@@ -15762,9 +15667,9 @@ tr753:
 		}
 	st_case_663:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st664
-		case 121:
+		case 114:
 			goto st664
 		}
 		goto tr416
@@ -15773,7 +15678,10 @@ tr753:
 			goto _test_eof664
 		}
 	st_case_664:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st665
+		case 101:
 			goto st665
 		}
 		goto tr416
@@ -15783,10 +15691,12 @@ tr753:
 		}
 	st_case_665:
 		switch data[p] {
-		case 84:
-			goto st666
-		case 116:
-			goto st666
+		case 9:
+			goto tr884
+		case 32:
+			goto tr884
+		case 58:
+			goto tr885
 		}
 		goto tr416
 	st666:
@@ -15795,9 +15705,9 @@ tr753:
 		}
 	st_case_666:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st667
-		case 111:
+		case 114:
 			goto st667
 		}
 		goto tr416
@@ -15807,12 +15717,10 @@ tr753:
 		}
 	st_case_667:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 89:
+			goto st668
+		case 121:
+			goto st668
 		}
 		goto tr416
 	st668:
@@ -15820,10 +15728,7 @@ tr753:
 			goto _test_eof668
 		}
 	st_case_668:
-		switch data[p] {
-		case 85:
-			goto st669
-		case 117:
+		if data[p] == 45 {
 			goto st669
 		}
 		goto tr416
@@ -15833,9 +15738,9 @@ tr753:
 		}
 	st_case_669:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st670
-		case 105:
+		case 97:
 			goto st670
 		}
 		goto tr416
@@ -15845,9 +15750,9 @@ tr753:
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 70:
 			goto st671
-		case 114:
+		case 102:
 			goto st671
 		}
 		goto tr416
@@ -15857,9 +15762,9 @@ tr753:
 		}
 	st_case_671:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st672
-		case 101:
+		case 116:
 			goto st672
 		}
 		goto tr416
@@ -15869,12 +15774,10 @@ tr753:
 		}
 	st_case_672:
 		switch data[p] {
-		case 9:
-			goto tr892
-		case 32:
-			goto tr892
-		case 58:
-			goto tr893
+		case 69:
+			goto st673
+		case 101:
+			goto st673
 		}
 		goto tr416
 	st673:
@@ -15895,10 +15798,12 @@ tr753:
 		}
 	st_case_674:
 		switch data[p] {
-		case 89:
-			goto st675
-		case 121:
-			goto st675
+		case 9:
+			goto tr894
+		case 32:
+			goto tr894
+		case 58:
+			goto tr895
 		}
 		goto tr416
 	st675:
@@ -15906,7 +15811,10 @@ tr753:
 			goto _test_eof675
 		}
 	st_case_675:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st676
+		case 117:
 			goto st676
 		}
 		goto tr416
@@ -15916,9 +15824,9 @@ tr753:
 		}
 	st_case_676:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st677
-		case 97:
+		case 116:
 			goto st677
 		}
 		goto tr416
@@ -15928,9 +15836,9 @@ tr753:
 		}
 	st_case_677:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st678
-		case 102:
+		case 101:
 			goto st678
 		}
 		goto tr416
@@ -15940,10 +15848,12 @@ tr753:
 		}
 	st_case_678:
 		switch data[p] {
-		case 84:
-			goto st679
-		case 116:
-			goto st679
+		case 9:
+			goto tr899
+		case 32:
+			goto tr899
+		case 58:
+			goto tr900
 		}
 		goto tr416
 	st679:
@@ -15952,10 +15862,20 @@ tr753:
 		}
 	st_case_679:
 		switch data[p] {
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		case 69:
 			goto st680
+		case 85:
+			goto st685
 		case 101:
 			goto st680
+		case 117:
+			goto st685
 		}
 		goto tr416
 	st680:
@@ -15976,12 +15896,10 @@ tr753:
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr902
-		case 32:
-			goto tr902
-		case 58:
-			goto tr903
+		case 86:
+			goto st682
+		case 118:
+			goto st682
 		}
 		goto tr416
 	st682:
@@ -15990,9 +15908,9 @@ tr753:
 		}
 	st_case_682:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st683
-		case 117:
+		case 101:
 			goto st683
 		}
 		goto tr416
@@ -16002,9 +15920,9 @@ tr753:
 		}
 	st_case_683:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st684
-		case 116:
+		case 114:
 			goto st684
 		}
 		goto tr416
@@ -16014,10 +15932,12 @@ tr753:
 		}
 	st_case_684:
 		switch data[p] {
-		case 69:
-			goto st685
-		case 101:
-			goto st685
+		case 9:
+			goto tr909
+		case 32:
+			goto tr909
+		case 58:
+			goto tr910
 		}
 		goto tr416
 	st685:
@@ -16026,12 +15946,14 @@ tr753:
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr907
-		case 32:
-			goto tr907
-		case 58:
-			goto tr908
+		case 66:
+			goto st686
+		case 80:
+			goto st691
+		case 98:
+			goto st686
+		case 112:
+			goto st691
 		}
 		goto tr416
 	st686:
@@ -16040,20 +15962,10 @@ tr753:
 		}
 	st_case_686:
 		switch data[p] {
-		case 9:
-			goto tr909
-		case 32:
-			goto tr909
-		case 58:
-			goto tr910
-		case 69:
+		case 74:
 			goto st687
-		case 85:
-			goto st692
-		case 101:
+		case 106:
 			goto st687
-		case 117:
-			goto st692
 		}
 		goto tr416
 	st687:
@@ -16062,9 +15974,9 @@ tr753:
 		}
 	st_case_687:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st688
-		case 114:
+		case 101:
 			goto st688
 		}
 		goto tr416
@@ -16074,9 +15986,9 @@ tr753:
 		}
 	st_case_688:
 		switch data[p] {
-		case 86:
+		case 67:
 			goto st689
-		case 118:
+		case 99:
 			goto st689
 		}
 		goto tr416
@@ -16086,9 +15998,9 @@ tr753:
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st690
-		case 101:
+		case 116:
 			goto st690
 		}
 		goto tr416
@@ -16098,10 +16010,12 @@ tr753:
 		}
 	st_case_690:
 		switch data[p] {
-		case 82:
-			goto st691
-		case 114:
-			goto st691
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		}
 		goto tr416
 	st691:
@@ -16110,12 +16024,10 @@ tr753:
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr917
-		case 32:
-			goto tr917
-		case 58:
-			goto tr918
+		case 80:
+			goto st692
+		case 112:
+			goto st692
 		}
 		goto tr416
 	st692:
@@ -16124,14 +16036,10 @@ tr753:
 		}
 	st_case_692:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st693
-		case 80:
-			goto st698
-		case 98:
+		case 111:
 			goto st693
-		case 112:
-			goto st698
 		}
 		goto tr416
 	st693:
@@ -16140,9 +16048,9 @@ tr753:
 		}
 	st_case_693:
 		switch data[p] {
-		case 74:
+		case 82:
 			goto st694
-		case 106:
+		case 114:
 			goto st694
 		}
 		goto tr416
@@ -16152,9 +16060,9 @@ tr753:
 		}
 	st_case_694:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st695
-		case 101:
+		case 116:
 			goto st695
 		}
 		goto tr416
@@ -16164,9 +16072,9 @@ tr753:
 		}
 	st_case_695:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st696
-		case 99:
+		case 101:
 			goto st696
 		}
 		goto tr416
@@ -16176,10 +16084,10 @@ tr753:
 		}
 	st_case_696:
 		switch data[p] {
-		case 84:
-			goto st697
-		case 116:
-			goto st697
+		case 68:
+			goto st504
+		case 100:
+			goto st504
 		}
 		goto tr416
 	st697:
@@ -16189,11 +16097,19 @@ tr753:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr922
 		case 32:
-			goto tr909
+			goto tr922
 		case 58:
-			goto tr910
+			goto tr923
+		case 73:
+			goto st698
+		case 79:
+			goto st706
+		case 105:
+			goto st698
+		case 111:
+			goto st706
 		}
 		goto tr416
 	st698:
@@ -16202,9 +16118,9 @@ tr753:
 		}
 	st_case_698:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st699
-		case 112:
+		case 109:
 			goto st699
 		}
 		goto tr416
@@ -16214,9 +16130,9 @@ tr753:
 		}
 	st_case_699:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st700
-		case 111:
+		case 101:
 			goto st700
 		}
 		goto tr416
@@ -16226,9 +16142,9 @@ tr753:
 		}
 	st_case_700:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st701
-		case 114:
+		case 115:
 			goto st701
 		}
 		goto tr416
@@ -16250,9 +16166,9 @@ tr753:
 		}
 	st_case_702:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st703
-		case 101:
+		case 97:
 			goto st703
 		}
 		goto tr416
@@ -16262,10 +16178,10 @@ tr753:
 		}
 	st_case_703:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 77:
+			goto st704
+		case 109:
+			goto st704
 		}
 		goto tr416
 	st704:
@@ -16274,20 +16190,10 @@ tr753:
 		}
 	st_case_704:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
-		case 73:
+		case 80:
 			goto st705
-		case 79:
-			goto st713
-		case 105:
+		case 112:
 			goto st705
-		case 111:
-			goto st713
 		}
 		goto tr416
 	st705:
@@ -16296,10 +16202,12 @@ tr753:
 		}
 	st_case_705:
 		switch data[p] {
-		case 77:
-			goto st706
-		case 109:
-			goto st706
+		case 9:
+			goto tr933
+		case 32:
+			goto tr933
+		case 58:
+			goto tr934
 		}
 		goto tr416
 	st706:
@@ -16308,10 +16216,12 @@ tr753:
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
-			goto st707
-		case 101:
-			goto st707
+		case 9:
+			goto tr922
+		case 32:
+			goto tr922
+		case 58:
+			goto tr923
 		}
 		goto tr416
 	st707:
@@ -16320,10 +16230,20 @@ tr753:
 		}
 	st_case_707:
 		switch data[p] {
+		case 9:
+			goto tr502
+		case 32:
+			goto tr502
+		case 58:
+			goto tr503
+		case 78:
+			goto st708
 		case 83:
+			goto st718
+		case 110:
 			goto st708
 		case 115:
-			goto st708
+			goto st718
 		}
 		goto tr416
 	st708:
@@ -16332,9 +16252,9 @@ tr753:
 		}
 	st_case_708:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st709
-		case 116:
+		case 115:
 			goto st709
 		}
 		goto tr416
@@ -16344,9 +16264,9 @@ tr753:
 		}
 	st_case_709:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st710
-		case 97:
+		case 117:
 			goto st710
 		}
 		goto tr416
@@ -16356,9 +16276,9 @@ tr753:
 		}
 	st_case_710:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st711
-		case 109:
+		case 112:
 			goto st711
 		}
 		goto tr416
@@ -16380,12 +16300,10 @@ tr753:
 		}
 	st_case_712:
 		switch data[p] {
-		case 9:
-			goto tr941
-		case 32:
-			goto tr941
-		case 58:
-			goto tr942
+		case 79:
+			goto st713
+		case 111:
+			goto st713
 		}
 		goto tr416
 	st713:
@@ -16394,12 +16312,10 @@ tr753:
 		}
 	st_case_713:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
+		case 82:
+			goto st714
+		case 114:
+			goto st714
 		}
 		goto tr416
 	st714:
@@ -16408,20 +16324,10 @@ tr753:
 		}
 	st_case_714:
 		switch data[p] {
-		case 9:
-			goto tr943
-		case 32:
-			goto tr943
-		case 58:
-			goto tr944
-		case 78:
+		case 84:
 			goto st715
-		case 83:
-			goto st725
-		case 110:
+		case 116:
 			goto st715
-		case 115:
-			goto st725
 		}
 		goto tr416
 	st715:
@@ -16430,9 +16336,9 @@ tr753:
 		}
 	st_case_715:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st716
-		case 115:
+		case 101:
 			goto st716
 		}
 		goto tr416
@@ -16442,9 +16348,9 @@ tr753:
 		}
 	st_case_716:
 		switch data[p] {
-		case 85:
+		case 68:
 			goto st717
-		case 117:
+		case 100:
 			goto st717
 		}
 		goto tr416
@@ -16454,10 +16360,12 @@ tr753:
 		}
 	st_case_717:
 		switch data[p] {
-		case 80:
-			goto st718
-		case 112:
-			goto st718
+		case 9:
+			goto tr946
+		case 32:
+			goto tr946
+		case 58:
+			goto tr947
 		}
 		goto tr416
 	st718:
@@ -16466,9 +16374,9 @@ tr753:
 		}
 	st_case_718:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st719
-		case 112:
+		case 101:
 			goto st719
 		}
 		goto tr416
@@ -16478,9 +16386,9 @@ tr753:
 		}
 	st_case_719:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st720
-		case 111:
+		case 114:
 			goto st720
 		}
 		goto tr416
@@ -16489,10 +16397,7 @@ tr753:
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		if data[p] == 45 {
 			goto st721
 		}
 		goto tr416
@@ -16502,9 +16407,9 @@ tr753:
 		}
 	st_case_721:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st722
-		case 116:
+		case 97:
 			goto st722
 		}
 		goto tr416
@@ -16514,9 +16419,9 @@ tr753:
 		}
 	st_case_722:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st723
-		case 101:
+		case 103:
 			goto st723
 		}
 		goto tr416
@@ -16526,9 +16431,9 @@ tr753:
 		}
 	st_case_723:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st724
-		case 100:
+		case 101:
 			goto st724
 		}
 		goto tr416
@@ -16538,12 +16443,10 @@ tr753:
 		}
 	st_case_724:
 		switch data[p] {
-		case 9:
-			goto tr956
-		case 32:
-			goto tr956
-		case 58:
-			goto tr957
+		case 78:
+			goto st725
+		case 110:
+			goto st725
 		}
 		goto tr416
 	st725:
@@ -16552,9 +16455,9 @@ tr753:
 		}
 	st_case_725:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st726
-		case 101:
+		case 116:
 			goto st726
 		}
 		goto tr416
@@ -16564,10 +16467,12 @@ tr753:
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
-			goto st727
-		case 114:
-			goto st727
+		case 9:
+			goto tr956
+		case 32:
+			goto tr956
+		case 58:
+			goto tr957
 		}
 		goto tr416
 	st727:
@@ -16575,8 +16480,17 @@ tr753:
 			goto _test_eof727
 		}
 	st_case_727:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st728
+		case 32:
 			goto st728
+		case 58:
+			goto st729
+		case 73:
+			goto st733
+		case 105:
+			goto st733
 		}
 		goto tr416
 	st728:
@@ -16585,72 +16499,88 @@ tr753:
 		}
 	st_case_728:
 		switch data[p] {
-		case 65:
-			goto st729
-		case 97:
+		case 9:
+			goto st728
+		case 32:
+			goto st728
+		case 58:
 			goto st729
 		}
-		goto tr416
+		goto st0
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		switch data[p] {
-		case 71:
-			goto st730
-		case 103:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 269:
+			goto tr961
+		case 525:
 			goto st730
 		}
-		goto tr416
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr961
+			}
+		default:
+			goto tr961
+		}
+		goto st0
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		switch data[p] {
-		case 69:
-			goto st731
-		case 101:
+		if data[p] == 10 {
 			goto st731
 		}
-		goto tr416
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st732
-		case 110:
+		case 32:
 			goto st732
 		}
-		goto tr416
+		goto st0
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 84:
-			goto st733
-		case 116:
-			goto st733
+		case 9:
+			goto st732
+		case 32:
+			goto st732
 		}
-		goto tr416
+		goto tr961
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
-	st_case_733:
-		switch data[p] {
-		case 9:
-			goto tr966
-		case 32:
-			goto tr966
-		case 58:
-			goto tr967
+	st_case_733:
+		switch data[p] {
+		case 65:
+			goto st734
+		case 97:
+			goto st734
 		}
 		goto tr416
 	st734:
@@ -16660,15 +16590,11 @@ tr753:
 	st_case_734:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto st728
 		case 32:
-			goto st735
+			goto st728
 		case 58:
-			goto st736
-		case 73:
-			goto st740
-		case 105:
-			goto st740
+			goto st729
 		}
 		goto tr416
 	st735:
@@ -16677,87 +16603,73 @@ tr753:
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st735
-		case 32:
-			goto st735
-		case 58:
+		case 65:
+			goto st736
+		case 87:
+			goto st742
+		case 97:
 			goto st736
+		case 119:
+			goto st742
 		}
-		goto st0
+		goto tr416
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st736
-		case 32:
-			goto st736
-		case 269:
-			goto tr971
-		case 525:
+		switch data[p] {
+		case 82:
+			goto st737
+		case 114:
 			goto st737
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr971
-			}
-		default:
-			goto tr971
-		}
-		goto st0
+		goto tr416
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st738
+		case 110:
 			goto st738
 		}
-		goto st0
+		goto tr416
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st739
-		case 32:
+		case 105:
 			goto st739
 		}
-		goto st0
+		goto tr416
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 9:
-			goto st739
-		case 32:
-			goto st739
+		case 78:
+			goto st740
+		case 110:
+			goto st740
 		}
-		goto tr971
+		goto tr416
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st741
-		case 97:
+		case 103:
 			goto st741
 		}
 		goto tr416
@@ -16768,11 +16680,11 @@ tr753:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto tr973
 		case 32:
-			goto st735
+			goto tr973
 		case 58:
-			goto st736
+			goto tr974
 		}
 		goto tr416
 	st742:
@@ -16781,14 +16693,10 @@ tr753:
 		}
 	st_case_742:
 		switch data[p] {
-		case 65:
-			goto st743
 		case 87:
-			goto st749
-		case 97:
 			goto st743
 		case 119:
-			goto st749
+			goto st743
 		}
 		goto tr416
 	st743:
@@ -16796,10 +16704,7 @@ tr753:
 			goto _test_eof743
 		}
 	st_case_743:
-		switch data[p] {
-		case 82:
-			goto st744
-		case 114:
+		if data[p] == 45 {
 			goto st744
 		}
 		goto tr416
@@ -16809,9 +16714,9 @@ tr753:
 		}
 	st_case_744:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st745
-		case 110:
+		case 97:
 			goto st745
 		}
 		goto tr416
@@ -16821,9 +16726,9 @@ tr753:
 		}
 	st_case_745:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st746
-		case 105:
+		case 117:
 			goto st746
 		}
 		goto tr416
@@ -16833,9 +16738,9 @@ tr753:
 		}
 	st_case_746:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st747
-		case 110:
+		case 116:
 			goto st747
 		}
 		goto tr416
@@ -16845,9 +16750,9 @@ tr753:
 		}
 	st_case_747:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st748
-		case 103:
+		case 104:
 			goto st748
 		}
 		goto tr416
@@ -16857,12 +16762,10 @@ tr753:
 		}
 	st_case_748:
 		switch data[p] {
-		case 9:
-			goto tr983
-		case 32:
-			goto tr983
-		case 58:
-			goto tr984
+		case 69:
+			goto st749
+		case 101:
+			goto st749
 		}
 		goto tr416
 	st749:
@@ -16871,9 +16774,9 @@ tr753:
 		}
 	st_case_749:
 		switch data[p] {
-		case 87:
+		case 78:
 			goto st750
-		case 119:
+		case 110:
 			goto st750
 		}
 		goto tr416
@@ -16882,7 +16785,10 @@ tr753:
 			goto _test_eof750
 		}
 	st_case_750:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st751
+		case 116:
 			goto st751
 		}
 		goto tr416
@@ -16892,9 +16798,9 @@ tr753:
 		}
 	st_case_751:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st752
-		case 97:
+		case 105:
 			goto st752
 		}
 		goto tr416
@@ -16904,9 +16810,9 @@ tr753:
 		}
 	st_case_752:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st753
-		case 117:
+		case 99:
 			goto st753
 		}
 		goto tr416
@@ -16916,9 +16822,9 @@ tr753:
 		}
 	st_case_753:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st754
-		case 116:
+		case 97:
 			goto st754
 		}
 		goto tr416
@@ -16928,9 +16834,9 @@ tr753:
 		}
 	st_case_754:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st755
-		case 104:
+		case 116:
 			goto st755
 		}
 		goto tr416
@@ -16951,106 +16857,22 @@ tr753:
 			goto _test_eof756
 		}
 	st_case_756:
-		switch data[p] {
-		case 78:
-			goto st757
-		case 110:
-			goto st757
-		}
-		goto tr416
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
-		switch data[p] {
-		case 84:
-			goto st758
-		case 116:
-			goto st758
-		}
-		goto tr416
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-		switch data[p] {
-		case 73:
-			goto st759
-		case 105:
-			goto st759
-		}
-		goto tr416
-	st759:
-		if p++; p == pe {
-			goto _test_eof759
-		}
-	st_case_759:
-		switch data[p] {
-		case 67:
-			goto st760
-		case 99:
-			goto st760
-		}
-		goto tr416
-	st760:
-		if p++; p == pe {
-			goto _test_eof760
-		}
-	st_case_760:
-		switch data[p] {
-		case 65:
-			goto st761
-		case 97:
-			goto st761
-		}
-		goto tr416
-	st761:
-		if p++; p == pe {
-			goto _test_eof761
-		}
-	st_case_761:
-		switch data[p] {
-		case 84:
-			goto st762
-		case 116:
-			goto st762
-		}
-		goto tr416
-	st762:
-		if p++; p == pe {
-			goto _test_eof762
-		}
-	st_case_762:
-		switch data[p] {
-		case 69:
-			goto st763
-		case 101:
-			goto st763
-		}
-		goto tr416
-	st763:
-		if p++; p == pe {
-			goto _test_eof763
-		}
-	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr999
+			goto tr989
 		case 32:
-			goto tr999
+			goto tr989
 		case 58:
-			goto tr1000
+			goto tr990
 		}
 		goto tr416
-	st764:
+	st757:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof757
 		}
-	st_case_764:
+	st_case_757:
 		if data[p] == 10 {
-			goto tr1001
+			goto tr991
 		}
 		goto st0
 	st_out:
@@ -17066,7 +16888,7 @@ tr753:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -17098,7 +16920,7 @@ tr753:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -17126,7 +16948,7 @@ tr753:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17170,7 +16992,7 @@ tr753:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17213,7 +17035,7 @@ tr753:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17253,7 +17075,7 @@ tr753:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17293,7 +17115,7 @@ tr753:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17306,25 +17128,25 @@ tr753:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
+	_test_eof768: cs = 768; goto _test_eof
+	_test_eof769: cs = 769; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof778: cs = 778; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17337,14 +17159,14 @@ tr753:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof779: cs = 779; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof780: cs = 780; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
@@ -17353,7 +17175,7 @@ tr753:
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17827,25 +17649,18 @@ tr753:
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
 	_test_eof757: cs = 757; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
+		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:171
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17655
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..8b88d8e 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -451,7 +451,7 @@ sname    = "Accept"i %{value=&msg.Accept}
          | ("Accept-Contact"i | "a"i) %{value=&msg.AcceptContact}
          | "Accept-Encoding"i %{value=&msg.AcceptEncoding}
          | "Accept-Language"i %{value=&msg.AcceptLanguage}
-         | ("Allow"i | "u"i) %{value=&msg.Allow}
+         | "Allow"i %{value=&msg.Allow}
          | ("Allow-Events"i | "u"i) %{value=&msg.AllowEvents}
          | "Alert-Info"i %{value=&msg.AlertInfo}
          | "Authentication-Info"i %{value=&msg.AuthenticationInfo}
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From aa93edb94f5a545af295be5349e67b1493fced1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 02/50] fix: accept empty reason phrases and refuse status
 codes below 100

A status of 000 made a message that is neither a request nor a response.
---
 sip/msg_parse.go | 3295 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    4 +-
 2 files changed, 1659 insertions(+), 1640 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 8b438a8..417f022 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1676,7 +1676,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr416:
+tr417:
 //line sip.rl:171
 
 	p--
@@ -1875,7 +1875,17 @@ tr14:
 			goto tr14
 		}
 		goto st0
-tr42:
+tr35:
+//line sip.rl:88
+
+	amt = 0
+
+//line sip.rl:133
+
+	msg.Phrase = string(buf[0:amt])
+
+	goto st13
+tr43:
 //line sip.rl:133
 
 	msg.Phrase = string(buf[0:amt])
@@ -1886,7 +1896,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1881
+//line msg_parse.go:1891
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1900,7 +1910,7 @@ tr16:
 			goto _test_eof758
 		}
 	st_case_758:
-//line msg_parse.go:1895
+//line msg_parse.go:1905
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1913,7 +1923,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1908
+//line msg_parse.go:1918
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2050,7 +2060,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2045
+//line msg_parse.go:2055
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2078,7 +2088,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2073
+//line msg_parse.go:2083
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2091,7 +2101,7 @@ tr22:
 			goto _test_eof21
 		}
 	st_case_21:
-		if 48 <= data[p] && data[p] <= 57 {
+		if 49 <= data[p] && data[p] <= 57 {
 			goto tr24
 		}
 		goto st0
@@ -2106,7 +2116,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2101
+//line msg_parse.go:2111
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2122,7 +2132,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2117
+//line msg_parse.go:2127
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2138,7 +2148,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2133
+//line msg_parse.go:2143
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2148,7 +2158,14 @@ tr26:
 			goto _test_eof25
 		}
 	st_case_25:
-		switch data[p] {
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
 		case 9:
 			goto tr28
 		case 37:
@@ -2159,39 +2176,41 @@ tr26:
 			goto tr28
 		case 126:
 			goto tr28
+		case 269:
+			goto tr35
 		}
 		switch {
-		case data[p] < 192:
+		case _widec < 192:
 			switch {
-			case data[p] < 36:
-				if 32 <= data[p] && data[p] <= 33 {
+			case _widec < 36:
+				if 32 <= _widec && _widec <= 33 {
 					goto tr28
 				}
-			case data[p] > 59:
+			case _widec > 59:
 				switch {
-				case data[p] > 90:
-					if 97 <= data[p] && data[p] <= 122 {
+				case _widec > 90:
+					if 97 <= _widec && _widec <= 122 {
 						goto tr28
 					}
-				case data[p] >= 63:
+				case _widec >= 63:
 					goto tr28
 				}
 			default:
 				goto tr28
 			}
-		case data[p] > 223:
+		case _widec > 223:
 			switch {
-			case data[p] < 240:
-				if 224 <= data[p] && data[p] <= 239 {
+			case _widec < 240:
+				if 224 <= _widec && _widec <= 239 {
 					goto tr31
 				}
-			case data[p] > 247:
+			case _widec > 247:
 				switch {
-				case data[p] > 251:
-					if 252 <= data[p] && data[p] <= 253 {
+				case _widec > 251:
+					if 252 <= _widec && _widec <= 253 {
 						goto tr34
 					}
-				case data[p] >= 248:
+				case _widec >= 248:
 					goto tr33
 				}
 			default:
@@ -2212,14 +2231,14 @@ tr28:
 	amt++
 
 	goto st26
-tr35:
+tr36:
 //line sip.rl:92
 
 	buf[amt] = data[p]
 	amt++
 
 	goto st26
-tr44:
+tr45:
 //line sip.rl:106
 
 	hex += unhex(data[p])
@@ -2232,7 +2251,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2227
+//line msg_parse.go:2246
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2242,57 +2261,57 @@ tr44:
 		}
 		switch _widec {
 		case 9:
-			goto tr35
+			goto tr36
 		case 37:
 			goto st27
 		case 61:
-			goto tr35
+			goto tr36
 		case 95:
-			goto tr35
+			goto tr36
 		case 126:
-			goto tr35
+			goto tr36
 		case 269:
-			goto tr42
+			goto tr43
 		}
 		switch {
 		case _widec < 192:
 			switch {
 			case _widec < 36:
 				if 32 <= _widec && _widec <= 33 {
-					goto tr35
+					goto tr36
 				}
 			case _widec > 59:
 				switch {
 				case _widec > 90:
 					if 97 <= _widec && _widec <= 122 {
-						goto tr35
+						goto tr36
 					}
 				case _widec >= 63:
-					goto tr35
+					goto tr36
 				}
 			default:
-				goto tr35
+				goto tr36
 			}
 		case _widec > 223:
 			switch {
 			case _widec < 240:
 				if 224 <= _widec && _widec <= 239 {
-					goto tr38
+					goto tr39
 				}
 			case _widec > 247:
 				switch {
 				case _widec > 251:
 					if 252 <= _widec && _widec <= 253 {
-						goto tr41
+						goto tr42
 					}
 				case _widec >= 248:
-					goto tr40
+					goto tr41
 				}
 			default:
-				goto tr39
+				goto tr40
 			}
 		default:
-			goto tr37
+			goto tr38
 		}
 		goto st0
 tr29:
@@ -2306,21 +2325,21 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2301
+//line msg_parse.go:2320
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr43
+				goto tr44
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr43
+				goto tr44
 			}
 		default:
-			goto tr43
+			goto tr44
 		}
 		goto st0
-tr43:
+tr44:
 //line sip.rl:102
 
 	hex = unhex(data[p]) * 16
@@ -2331,18 +2350,18 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2326
+//line msg_parse.go:2345
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr44
+				goto tr45
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr44
+				goto tr45
 			}
 		default:
-			goto tr44
+			goto tr45
 		}
 		goto st0
 tr30:
@@ -2356,7 +2375,7 @@ tr30:
 	amt++
 
 	goto st29
-tr37:
+tr38:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2368,9 +2387,9 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2363
+//line msg_parse.go:2382
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr35
+			goto tr36
 		}
 		goto st0
 tr31:
@@ -2384,7 +2403,7 @@ tr31:
 	amt++
 
 	goto st30
-tr38:
+tr39:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2396,9 +2415,9 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2391
+//line msg_parse.go:2410
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr37
+			goto tr38
 		}
 		goto st0
 tr32:
@@ -2412,7 +2431,7 @@ tr32:
 	amt++
 
 	goto st31
-tr39:
+tr40:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2424,9 +2443,9 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2419
+//line msg_parse.go:2438
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr38
+			goto tr39
 		}
 		goto st0
 tr33:
@@ -2440,7 +2459,7 @@ tr33:
 	amt++
 
 	goto st32
-tr40:
+tr41:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2452,9 +2471,9 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2447
+//line msg_parse.go:2466
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr39
+			goto tr40
 		}
 		goto st0
 tr34:
@@ -2468,7 +2487,7 @@ tr34:
 	amt++
 
 	goto st33
-tr41:
+tr42:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2480,9 +2499,9 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2475
+//line msg_parse.go:2494
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr40
+			goto tr41
 		}
 		goto st0
 	st34:
@@ -2492,38 +2511,38 @@ tr41:
 	st_case_34:
 		switch data[p] {
 		case 33:
-			goto tr45
+			goto tr46
 		case 37:
-			goto tr45
+			goto tr46
 		case 39:
-			goto tr45
+			goto tr46
 		case 126:
-			goto tr45
+			goto tr46
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr45
+					goto tr46
 				}
 			case data[p] >= 42:
-				goto tr45
+				goto tr46
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr45
+					goto tr46
 				}
 			case data[p] >= 65:
-				goto tr45
+				goto tr46
 			}
 		default:
-			goto tr45
+			goto tr46
 		}
 		goto st0
-tr45:
+tr46:
 //line sip.rl:80
 
 	mark = p
@@ -2534,7 +2553,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2529
+//line msg_parse.go:2548
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2617,9 +2636,9 @@ tr45:
 		}
 		switch _widec {
 		case 9:
-			goto tr49
+			goto tr50
 		case 32:
-			goto tr49
+			goto tr50
 		case 33:
 			goto st37
 		case 37:
@@ -2627,13 +2646,13 @@ tr45:
 		case 39:
 			goto st37
 		case 59:
-			goto tr50
+			goto tr51
 		case 126:
 			goto st37
 		case 269:
-			goto tr51
-		case 525:
 			goto tr52
+		case 525:
+			goto tr53
 		}
 		switch {
 		case _widec < 48:
@@ -2658,7 +2677,7 @@ tr45:
 			goto st37
 		}
 		goto st0
-tr49:
+tr50:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2669,7 +2688,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2664
+//line msg_parse.go:2683
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2688,7 +2707,7 @@ tr49:
 			goto st45
 		}
 		goto st0
-tr50:
+tr51:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2699,7 +2718,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2694
+//line msg_parse.go:2713
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2930,7 +2949,7 @@ tr50:
 			goto st43
 		}
 		goto st0
-tr51:
+tr52:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2941,12 +2960,12 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2936
+//line msg_parse.go:2955
 		if data[p] == 10 {
-			goto tr65
+			goto tr66
 		}
 		goto st0
-tr65:
+tr66:
 //line sip.rl:257
  {goto st280 } 
 	goto st759
@@ -2955,9 +2974,9 @@ tr65:
 			goto _test_eof759
 		}
 	st_case_759:
-//line msg_parse.go:2950
+//line msg_parse.go:2969
 		goto st0
-tr52:
+tr53:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2968,7 +2987,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2963
+//line msg_parse.go:2982
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3013,42 +3032,42 @@ tr52:
 		}
 		switch _widec {
 		case 9:
-			goto tr68
-		case 34:
 			goto tr69
-		case 92:
+		case 34:
 			goto tr70
+		case 92:
+			goto tr71
 		case 525:
-			goto tr76
+			goto tr77
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr71
+					goto tr72
 				}
 			case _widec >= 32:
-				goto tr68
+				goto tr69
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr73
+					goto tr74
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr75
+					goto tr76
 				}
 			default:
-				goto tr74
+				goto tr75
 			}
 		default:
-			goto tr72
+			goto tr73
 		}
 		goto st0
-tr68:
+tr69:
 //line sip.rl:88
 
 	amt = 0
@@ -3059,7 +3078,7 @@ tr68:
 	amt++
 
 	goto st49
-tr77:
+tr78:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3071,7 +3090,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3066
+//line msg_parse.go:3085
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3081,42 +3100,42 @@ tr77:
 		}
 		switch _widec {
 		case 9:
-			goto tr77
+			goto tr78
 		case 34:
 			goto st50
 		case 92:
 			goto st51
 		case 525:
-			goto tr85
+			goto tr86
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr80
+					goto tr81
 				}
 			case _widec >= 32:
-				goto tr77
+				goto tr78
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr82
+					goto tr83
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr84
+					goto tr85
 				}
 			default:
-				goto tr83
+				goto tr84
 			}
 		default:
-			goto tr81
+			goto tr82
 		}
 		goto st0
-tr69:
+tr70:
 //line sip.rl:88
 
 	amt = 0
@@ -3127,7 +3146,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3122
+//line msg_parse.go:3141
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3148,7 +3167,7 @@ tr69:
 			goto st45
 		}
 		goto st0
-tr70:
+tr71:
 //line sip.rl:88
 
 	amt = 0
@@ -3159,21 +3178,21 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3154
+//line msg_parse.go:3173
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr77
+				goto tr78
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr77
+				goto tr78
 			}
 		default:
-			goto tr77
+			goto tr78
 		}
 		goto st0
-tr71:
+tr72:
 //line sip.rl:88
 
 	amt = 0
@@ -3184,7 +3203,7 @@ tr71:
 	amt++
 
 	goto st52
-tr80:
+tr81:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3196,12 +3215,12 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3191
+//line msg_parse.go:3210
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr77
+			goto tr78
 		}
 		goto st0
-tr72:
+tr73:
 //line sip.rl:88
 
 	amt = 0
@@ -3212,7 +3231,7 @@ tr72:
 	amt++
 
 	goto st53
-tr81:
+tr82:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3224,12 +3243,12 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3219
+//line msg_parse.go:3238
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr80
+			goto tr81
 		}
 		goto st0
-tr73:
+tr74:
 //line sip.rl:88
 
 	amt = 0
@@ -3240,7 +3259,7 @@ tr73:
 	amt++
 
 	goto st54
-tr82:
+tr83:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3252,12 +3271,12 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3247
+//line msg_parse.go:3266
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr81
+			goto tr82
 		}
 		goto st0
-tr74:
+tr75:
 //line sip.rl:88
 
 	amt = 0
@@ -3268,7 +3287,7 @@ tr74:
 	amt++
 
 	goto st55
-tr83:
+tr84:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3280,12 +3299,12 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3275
+//line msg_parse.go:3294
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr82
+			goto tr83
 		}
 		goto st0
-tr75:
+tr76:
 //line sip.rl:88
 
 	amt = 0
@@ -3296,7 +3315,7 @@ tr75:
 	amt++
 
 	goto st56
-tr84:
+tr85:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3308,12 +3327,12 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3303
+//line msg_parse.go:3322
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr83
+			goto tr84
 		}
 		goto st0
-tr76:
+tr77:
 //line sip.rl:88
 
 	amt = 0
@@ -3324,7 +3343,7 @@ tr76:
 	amt++
 
 	goto st57
-tr85:
+tr86:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3336,12 +3355,12 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3331
+//line msg_parse.go:3350
 		if data[p] == 10 {
-			goto tr86
+			goto tr87
 		}
 		goto st0
-tr86:
+tr87:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3353,12 +3372,12 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3348
+//line msg_parse.go:3367
 		switch data[p] {
 		case 9:
-			goto tr77
+			goto tr78
 		case 32:
-			goto tr77
+			goto tr78
 		}
 		goto st0
 	st59:
@@ -3531,38 +3550,38 @@ tr86:
 	st_case_68:
 		switch data[p] {
 		case 33:
-			goto tr93
+			goto tr94
 		case 37:
-			goto tr93
+			goto tr94
 		case 39:
-			goto tr93
+			goto tr94
 		case 126:
-			goto tr93
+			goto tr94
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr93
+					goto tr94
 				}
 			case data[p] >= 42:
-				goto tr93
+				goto tr94
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr93
+					goto tr94
 				}
 			case data[p] >= 65:
-				goto tr93
+				goto tr94
 			}
 		default:
-			goto tr93
+			goto tr94
 		}
 		goto st0
-tr93:
+tr94:
 //line sip.rl:88
 
 	amt = 0
@@ -3577,7 +3596,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3572
+//line msg_parse.go:3591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3587,9 +3606,9 @@ tr93:
 		}
 		switch _widec {
 		case 9:
-			goto tr94
+			goto tr95
 		case 32:
-			goto tr94
+			goto tr95
 		case 33:
 			goto st69
 		case 37:
@@ -3597,17 +3616,17 @@ tr93:
 		case 39:
 			goto st69
 		case 44:
-			goto tr96
-		case 59:
 			goto tr97
-		case 61:
+		case 59:
 			goto tr98
+		case 61:
+			goto tr99
 		case 126:
 			goto st69
 		case 269:
-			goto tr99
-		case 525:
 			goto tr100
+		case 525:
+			goto tr101
 		}
 		switch {
 		case _widec < 48:
@@ -3627,7 +3646,7 @@ tr93:
 			goto st69
 		}
 		goto st0
-tr94:
+tr95:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3638,7 +3657,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3633
+//line msg_parse.go:3652
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3661,7 +3680,7 @@ tr94:
 			goto st100
 		}
 		goto st0
-tr96:
+tr97:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3672,7 +3691,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3667
+//line msg_parse.go:3686
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3686,20 +3705,20 @@ tr96:
 		case 32:
 			goto st71
 		case 269:
-			goto tr106
+			goto tr107
 		case 525:
 			goto st72
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr106
+				goto tr107
 			}
 		default:
-			goto tr106
+			goto tr107
 		}
 		goto st0
-tr106:
+tr107:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3722,7 +3741,7 @@ tr106:
 //line sip.rl:259
  {goto st103 } 
 	goto st760
-tr110:
+tr111:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3739,7 +3758,7 @@ tr110:
 //line sip.rl:260
  {goto st68 } 
 	goto st760
-tr122:
+tr123:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3758,7 +3777,7 @@ tr122:
 			goto _test_eof760
 		}
 	st_case_760:
-//line msg_parse.go:3753
+//line msg_parse.go:3772
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3792,8 +3811,8 @@ tr122:
 		case 32:
 			goto st74
 		}
-		goto tr106
-tr97:
+		goto tr107
+tr98:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3804,7 +3823,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3799
+//line msg_parse.go:3818
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3818,17 +3837,17 @@ tr97:
 		case 32:
 			goto st75
 		case 269:
-			goto tr110
+			goto tr111
 		case 525:
 			goto st76
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr110
+				goto tr111
 			}
 		default:
-			goto tr110
+			goto tr111
 		}
 		goto st0
 	st76:
@@ -3863,8 +3882,8 @@ tr97:
 		case 32:
 			goto st78
 		}
-		goto tr110
-tr98:
+		goto tr111
+tr99:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3875,7 +3894,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3870
+//line msg_parse.go:3889
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3889,17 +3908,17 @@ tr98:
 		case 32:
 			goto st79
 		case 33:
-			goto tr114
+			goto tr115
 		case 34:
 			goto st86
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		case 525:
 			goto st97
 		}
@@ -3908,25 +3927,25 @@ tr98:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 42:
-				goto tr114
+				goto tr115
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
-tr114:
+tr115:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3938,7 +3957,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3933
+//line msg_parse.go:3952
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,19 +3971,19 @@ tr114:
 		case 32:
 			goto st81
 		case 33:
-			goto tr114
+			goto tr115
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 44:
 			goto st71
 		case 59:
 			goto st75
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		case 269:
 			goto st85
 		case 525:
@@ -3973,19 +3992,19 @@ tr114:
 		switch {
 		case _widec < 48:
 			if 42 <= _widec && _widec <= 46 {
-				goto tr114
+				goto tr115
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
 	st81:
@@ -4050,7 +4069,7 @@ tr114:
 			goto st75
 		}
 		goto st0
-tr99:
+tr100:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -4061,9 +4080,9 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4056
+//line msg_parse.go:4075
 		if data[p] == 10 {
-			goto tr122
+			goto tr123
 		}
 		goto st0
 	st86:
@@ -4080,42 +4099,42 @@ tr99:
 		}
 		switch _widec {
 		case 9:
-			goto tr123
-		case 34:
 			goto tr124
-		case 92:
+		case 34:
 			goto tr125
+		case 92:
+			goto tr126
 		case 525:
-			goto tr131
+			goto tr132
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr126
+					goto tr127
 				}
 			case _widec >= 32:
-				goto tr123
+				goto tr124
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr128
+					goto tr129
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr130
+					goto tr131
 				}
 			default:
-				goto tr129
+				goto tr130
 			}
 		default:
-			goto tr127
+			goto tr128
 		}
 		goto st0
-tr123:
+tr124:
 //line sip.rl:88
 
 	amt = 0
@@ -4126,7 +4145,7 @@ tr123:
 	amt++
 
 	goto st87
-tr132:
+tr133:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4138,7 +4157,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4133
+//line msg_parse.go:4152
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4148,42 +4167,42 @@ tr132:
 		}
 		switch _widec {
 		case 9:
-			goto tr132
+			goto tr133
 		case 34:
 			goto st88
 		case 92:
 			goto st89
 		case 525:
-			goto tr140
+			goto tr141
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr135
+					goto tr136
 				}
 			case _widec >= 32:
-				goto tr132
+				goto tr133
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr137
+					goto tr138
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr139
+					goto tr140
 				}
 			default:
-				goto tr138
+				goto tr139
 			}
 		default:
-			goto tr136
+			goto tr137
 		}
 		goto st0
-tr124:
+tr125:
 //line sip.rl:88
 
 	amt = 0
@@ -4194,7 +4213,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4189
+//line msg_parse.go:4208
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4217,7 +4236,7 @@ tr124:
 			goto st82
 		}
 		goto st0
-tr125:
+tr126:
 //line sip.rl:88
 
 	amt = 0
@@ -4228,21 +4247,21 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4223
+//line msg_parse.go:4242
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr132
+				goto tr133
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr132
+				goto tr133
 			}
 		default:
-			goto tr132
+			goto tr133
 		}
 		goto st0
-tr126:
+tr127:
 //line sip.rl:88
 
 	amt = 0
@@ -4253,7 +4272,7 @@ tr126:
 	amt++
 
 	goto st90
-tr135:
+tr136:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4265,12 +4284,12 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4260
+//line msg_parse.go:4279
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr132
+			goto tr133
 		}
 		goto st0
-tr127:
+tr128:
 //line sip.rl:88
 
 	amt = 0
@@ -4281,7 +4300,7 @@ tr127:
 	amt++
 
 	goto st91
-tr136:
+tr137:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4293,12 +4312,12 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4288
+//line msg_parse.go:4307
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr135
+			goto tr136
 		}
 		goto st0
-tr128:
+tr129:
 //line sip.rl:88
 
 	amt = 0
@@ -4309,7 +4328,7 @@ tr128:
 	amt++
 
 	goto st92
-tr137:
+tr138:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4321,12 +4340,12 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4316
+//line msg_parse.go:4335
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr136
+			goto tr137
 		}
 		goto st0
-tr129:
+tr130:
 //line sip.rl:88
 
 	amt = 0
@@ -4337,7 +4356,7 @@ tr129:
 	amt++
 
 	goto st93
-tr138:
+tr139:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4349,12 +4368,12 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4344
+//line msg_parse.go:4363
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr137
+			goto tr138
 		}
 		goto st0
-tr130:
+tr131:
 //line sip.rl:88
 
 	amt = 0
@@ -4365,7 +4384,7 @@ tr130:
 	amt++
 
 	goto st94
-tr139:
+tr140:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4377,12 +4396,12 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4372
+//line msg_parse.go:4391
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr138
+			goto tr139
 		}
 		goto st0
-tr131:
+tr132:
 //line sip.rl:88
 
 	amt = 0
@@ -4393,7 +4412,7 @@ tr131:
 	amt++
 
 	goto st95
-tr140:
+tr141:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4405,12 +4424,12 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4400
+//line msg_parse.go:4419
 		if data[p] == 10 {
-			goto tr141
+			goto tr142
 		}
 		goto st0
-tr141:
+tr142:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4422,12 +4441,12 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4417
+//line msg_parse.go:4436
 		switch data[p] {
 		case 9:
-			goto tr132
+			goto tr133
 		case 32:
-			goto tr132
+			goto tr133
 		}
 		goto st0
 	st97:
@@ -4462,42 +4481,42 @@ tr141:
 		case 32:
 			goto st99
 		case 33:
-			goto tr114
+			goto tr115
 		case 34:
 			goto st86
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr114
+					goto tr115
 				}
 			case data[p] >= 42:
-				goto tr114
+				goto tr115
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case data[p] >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
-tr100:
+tr101:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -4508,7 +4527,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4503
+//line msg_parse.go:4522
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4550,38 +4569,38 @@ tr100:
 	st_case_103:
 		switch data[p] {
 		case 33:
-			goto tr146
+			goto tr147
 		case 37:
-			goto tr146
+			goto tr147
 		case 39:
-			goto tr146
+			goto tr147
 		case 126:
-			goto tr146
+			goto tr147
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr146
+					goto tr147
 				}
 			case data[p] >= 42:
-				goto tr146
+				goto tr147
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr146
+					goto tr147
 				}
 			case data[p] >= 65:
-				goto tr146
+				goto tr147
 			}
 		default:
-			goto tr146
+			goto tr147
 		}
 		goto st0
-tr146:
+tr147:
 //line sip.rl:80
 
 	mark = p
@@ -4592,7 +4611,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4587
+//line msg_parse.go:4606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4602,9 +4621,9 @@ tr146:
 		}
 		switch _widec {
 		case 9:
-			goto tr147
+			goto tr148
 		case 32:
-			goto tr147
+			goto tr148
 		case 33:
 			goto st104
 		case 37:
@@ -4612,11 +4631,11 @@ tr146:
 		case 39:
 			goto st104
 		case 47:
-			goto tr149
+			goto tr150
 		case 126:
 			goto st104
 		case 525:
-			goto tr150
+			goto tr151
 		}
 		switch {
 		case _widec < 45:
@@ -4636,7 +4655,7 @@ tr146:
 			goto st104
 		}
 		goto st0
-tr147:
+tr148:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -4647,7 +4666,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4642
+//line msg_parse.go:4661
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4666,7 +4685,7 @@ tr147:
 			goto st150
 		}
 		goto st0
-tr149:
+tr150:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -4677,7 +4696,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4672
+//line msg_parse.go:4691
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4691,13 +4710,13 @@ tr149:
 		case 32:
 			goto st106
 		case 33:
-			goto tr154
+			goto tr155
 		case 37:
-			goto tr154
+			goto tr155
 		case 39:
-			goto tr154
+			goto tr155
 		case 126:
-			goto tr154
+			goto tr155
 		case 525:
 			goto st147
 		}
@@ -4706,25 +4725,25 @@ tr149:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr154
+					goto tr155
 				}
 			case _widec >= 42:
-				goto tr154
+				goto tr155
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr154
+					goto tr155
 				}
 			case _widec >= 65:
-				goto tr154
+				goto tr155
 			}
 		default:
-			goto tr154
+			goto tr155
 		}
 		goto st0
-tr154:
+tr155:
 //line sip.rl:80
 
 	mark = p
@@ -4735,7 +4754,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4730
+//line msg_parse.go:4749
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4745,9 +4764,9 @@ tr154:
 		}
 		switch _widec {
 		case 9:
-			goto tr156
+			goto tr157
 		case 32:
-			goto tr156
+			goto tr157
 		case 33:
 			goto st107
 		case 37:
@@ -4755,11 +4774,11 @@ tr154:
 		case 39:
 			goto st107
 		case 47:
-			goto tr158
+			goto tr159
 		case 126:
 			goto st107
 		case 525:
-			goto tr159
+			goto tr160
 		}
 		switch {
 		case _widec < 45:
@@ -4779,7 +4798,7 @@ tr154:
 			goto st107
 		}
 		goto st0
-tr156:
+tr157:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -4790,7 +4809,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4785
+//line msg_parse.go:4804
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4809,7 +4828,7 @@ tr156:
 			goto st144
 		}
 		goto st0
-tr158:
+tr159:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -4820,7 +4839,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4815
+//line msg_parse.go:4834
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4834,13 +4853,13 @@ tr158:
 		case 32:
 			goto st109
 		case 33:
-			goto tr163
+			goto tr164
 		case 37:
-			goto tr163
+			goto tr164
 		case 39:
-			goto tr163
+			goto tr164
 		case 126:
-			goto tr163
+			goto tr164
 		case 525:
 			goto st141
 		}
@@ -4849,25 +4868,25 @@ tr158:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr163
+					goto tr164
 				}
 			case _widec >= 42:
-				goto tr163
+				goto tr164
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr163
+					goto tr164
 				}
 			case _widec >= 65:
-				goto tr163
+				goto tr164
 			}
 		default:
-			goto tr163
+			goto tr164
 		}
 		goto st0
-tr163:
+tr164:
 //line sip.rl:80
 
 	mark = p
@@ -4878,7 +4897,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4873
+//line msg_parse.go:4892
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4888,9 +4907,9 @@ tr163:
 		}
 		switch _widec {
 		case 9:
-			goto tr165
+			goto tr166
 		case 32:
-			goto tr165
+			goto tr166
 		case 33:
 			goto st110
 		case 37:
@@ -4900,7 +4919,7 @@ tr163:
 		case 126:
 			goto st110
 		case 525:
-			goto tr167
+			goto tr168
 		}
 		switch {
 		case _widec < 48:
@@ -4925,7 +4944,7 @@ tr163:
 			goto st110
 		}
 		goto st0
-tr165:
+tr166:
 //line sip.rl:155
 
 	via.Transport = string(data[mark:p])
@@ -4936,7 +4955,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4931
+//line msg_parse.go:4950
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4957,22 +4976,22 @@ tr165:
 		switch {
 		case _widec < 48:
 			if 45 <= _widec && _widec <= 46 {
-				goto tr169
+				goto tr170
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 97 <= _widec && _widec <= 122 {
-					goto tr169
+					goto tr170
 				}
 			case _widec >= 65:
-				goto tr169
+				goto tr170
 			}
 		default:
-			goto tr169
+			goto tr170
 		}
 		goto st0
-tr169:
+tr170:
 //line sip.rl:80
 
 	mark = p
@@ -4983,7 +5002,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4978
+//line msg_parse.go:4997
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4993,19 +5012,19 @@ tr169:
 		}
 		switch _widec {
 		case 9:
-			goto tr172
+			goto tr173
 		case 32:
-			goto tr172
-		case 44:
 			goto tr173
+		case 44:
+			goto tr174
 		case 58:
-			goto tr175
-		case 59:
 			goto tr176
-		case 269:
+		case 59:
 			goto tr177
-		case 525:
+		case 269:
 			goto tr178
+		case 525:
+			goto tr179
 		}
 		switch {
 		case _widec < 48:
@@ -5025,7 +5044,7 @@ tr169:
 			goto st112
 		}
 		goto st0
-tr172:
+tr173:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5036,7 +5055,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5031
+//line msg_parse.go:5050
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5059,7 +5078,7 @@ tr172:
 			goto st132
 		}
 		goto st0
-tr173:
+tr174:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5070,7 +5089,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5065
+//line msg_parse.go:5084
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5084,20 +5103,20 @@ tr173:
 		case 32:
 			goto st114
 		case 269:
-			goto tr184
+			goto tr185
 		case 525:
 			goto st115
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr184
+				goto tr185
 			}
 		default:
-			goto tr184
+			goto tr185
 		}
 		goto st0
-tr184:
+tr185:
 //line sip.rl:141
 
 	*viap = via
@@ -5116,7 +5135,7 @@ tr184:
 //line sip.rl:259
  {goto st103 } 
 	goto st761
-tr193:
+tr194:
 //line sip.rl:72
 
 	p--
@@ -5129,7 +5148,7 @@ tr193:
 //line sip.rl:260
  {goto st68 } 
 	goto st761
-tr199:
+tr200:
 //line sip.rl:141
 
 	*viap = via
@@ -5144,7 +5163,7 @@ tr199:
 			goto _test_eof761
 		}
 	st_case_761:
-//line msg_parse.go:5139
+//line msg_parse.go:5158
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5178,8 +5197,8 @@ tr199:
 		case 32:
 			goto st117
 		}
-		goto tr184
-tr175:
+		goto tr185
+tr176:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5190,7 +5209,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5185
+//line msg_parse.go:5204
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5207,10 +5226,10 @@ tr175:
 			goto st129
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
-tr188:
+tr189:
 //line sip.rl:163
 
 	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
@@ -5221,7 +5240,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5216
+//line msg_parse.go:5235
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5244,7 +5263,7 @@ tr188:
 			goto st125
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
 	st120:
@@ -5272,7 +5291,7 @@ tr188:
 			goto st125
 		}
 		goto st0
-tr176:
+tr177:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5283,7 +5302,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5278
+//line msg_parse.go:5297
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5297,17 +5316,17 @@ tr176:
 		case 32:
 			goto st121
 		case 269:
-			goto tr193
+			goto tr194
 		case 525:
 			goto st122
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr193
+				goto tr194
 			}
 		default:
-			goto tr193
+			goto tr194
 		}
 		goto st0
 	st122:
@@ -5342,7 +5361,7 @@ tr176:
 		case 32:
 			goto st124
 		}
-		goto tr193
+		goto tr194
 	st125:
 		if p++; p == pe {
 			goto _test_eof125
@@ -5380,7 +5399,7 @@ tr176:
 			goto st121
 		}
 		goto st0
-tr177:
+tr178:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5391,9 +5410,9 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5386
+//line msg_parse.go:5405
 		if data[p] == 10 {
-			goto tr199
+			goto tr200
 		}
 		goto st0
 	st129:
@@ -5429,10 +5448,10 @@ tr177:
 			goto st131
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
-tr178:
+tr179:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5443,7 +5462,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5438
+//line msg_parse.go:5457
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5484,22 +5503,22 @@ tr178:
 		}
 	st_case_135:
 		if data[p] == 46 {
-			goto tr204
+			goto tr205
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr204
+				goto tr205
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr204
+				goto tr205
 			}
 		default:
-			goto tr204
+			goto tr205
 		}
 		goto st0
-tr204:
+tr205:
 //line sip.rl:80
 
 	mark = p
@@ -5510,12 +5529,12 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5505
+//line msg_parse.go:5524
 		switch data[p] {
 		case 46:
 			goto st136
 		case 93:
-			goto tr206
+			goto tr207
 		}
 		switch {
 		case data[p] < 65:
@@ -5530,7 +5549,7 @@ tr204:
 			goto st136
 		}
 		goto st0
-tr206:
+tr207:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5541,7 +5560,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5536
+//line msg_parse.go:5555
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5566,7 +5585,7 @@ tr206:
 			goto st132
 		}
 		goto st0
-tr167:
+tr168:
 //line sip.rl:155
 
 	via.Transport = string(data[mark:p])
@@ -5577,7 +5596,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5572
+//line msg_parse.go:5591
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5610,19 +5629,19 @@ tr167:
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr169
+				goto tr170
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr169
+					goto tr170
 				}
 			case data[p] >= 65:
-				goto tr169
+				goto tr170
 			}
 		default:
-			goto tr169
+			goto tr170
 		}
 		goto st0
 	st141:
@@ -5657,38 +5676,38 @@ tr167:
 		case 32:
 			goto st143
 		case 33:
-			goto tr163
+			goto tr164
 		case 37:
-			goto tr163
+			goto tr164
 		case 39:
-			goto tr163
+			goto tr164
 		case 126:
-			goto tr163
+			goto tr164
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr163
+					goto tr164
 				}
 			case data[p] >= 42:
-				goto tr163
+				goto tr164
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr163
+					goto tr164
 				}
 			case data[p] >= 65:
-				goto tr163
+				goto tr164
 			}
 		default:
-			goto tr163
+			goto tr164
 		}
 		goto st0
-tr159:
+tr160:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -5699,7 +5718,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5694
+//line msg_parse.go:5713
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5762,38 +5781,38 @@ tr159:
 		case 32:
 			goto st149
 		case 33:
-			goto tr154
+			goto tr155
 		case 37:
-			goto tr154
+			goto tr155
 		case 39:
-			goto tr154
+			goto tr155
 		case 126:
-			goto tr154
+			goto tr155
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr154
+					goto tr155
 				}
 			case data[p] >= 42:
-				goto tr154
+				goto tr155
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr154
+					goto tr155
 				}
 			case data[p] >= 65:
-				goto tr154
+				goto tr155
 			}
 		default:
-			goto tr154
+			goto tr155
 		}
 		goto st0
-tr150:
+tr151:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -5804,7 +5823,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5799
+//line msg_parse.go:5818
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5842,38 +5861,38 @@ tr150:
 	st_case_153:
 		switch data[p] {
 		case 33:
-			goto tr217
+			goto tr218
 		case 37:
-			goto tr217
+			goto tr218
 		case 39:
-			goto tr217
+			goto tr218
 		case 126:
-			goto tr217
+			goto tr218
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr217
+					goto tr218
 				}
 			case data[p] >= 42:
-				goto tr217
+				goto tr218
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr217
+					goto tr218
 				}
 			case data[p] >= 65:
-				goto tr217
+				goto tr218
 			}
 		default:
-			goto tr217
+			goto tr218
 		}
 		goto st0
-tr217:
+tr218:
 //line sip.rl:88
 
 	amt = 0
@@ -5888,7 +5907,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5883
+//line msg_parse.go:5902
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5898,9 +5917,9 @@ tr217:
 		}
 		switch _widec {
 		case 9:
-			goto tr218
+			goto tr219
 		case 32:
-			goto tr218
+			goto tr219
 		case 33:
 			goto st154
 		case 37:
@@ -5908,17 +5927,17 @@ tr217:
 		case 39:
 			goto st154
 		case 44:
-			goto tr220
-		case 59:
 			goto tr221
-		case 61:
+		case 59:
 			goto tr222
+		case 61:
+			goto tr223
 		case 126:
 			goto st154
 		case 269:
-			goto tr223
-		case 525:
 			goto tr224
+		case 525:
+			goto tr225
 		}
 		switch {
 		case _widec < 48:
@@ -5938,7 +5957,7 @@ tr217:
 			goto st154
 		}
 		goto st0
-tr218:
+tr219:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -5949,7 +5968,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5944
+//line msg_parse.go:5963
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5972,7 +5991,7 @@ tr218:
 			goto st185
 		}
 		goto st0
-tr220:
+tr221:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -5983,7 +6002,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5978
+//line msg_parse.go:5997
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5997,20 +6016,20 @@ tr220:
 		case 32:
 			goto st156
 		case 269:
-			goto tr230
+			goto tr231
 		case 525:
 			goto st157
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr230
+				goto tr231
 			}
 		default:
-			goto tr230
+			goto tr231
 		}
 		goto st0
-tr230:
+tr231:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6029,7 +6048,7 @@ tr230:
 //line sip.rl:252
  {goto st256 } 
 	goto st762
-tr234:
+tr235:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6042,7 +6061,7 @@ tr234:
 //line sip.rl:254
  {goto st153 } 
 	goto st762
-tr246:
+tr247:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6061,7 +6080,7 @@ tr246:
 			goto _test_eof762
 		}
 	st_case_762:
-//line msg_parse.go:6056
+//line msg_parse.go:6075
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6095,8 +6114,8 @@ tr246:
 		case 32:
 			goto st159
 		}
-		goto tr230
-tr221:
+		goto tr231
+tr222:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6107,7 +6126,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6102
+//line msg_parse.go:6121
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6121,17 +6140,17 @@ tr221:
 		case 32:
 			goto st160
 		case 269:
-			goto tr234
+			goto tr235
 		case 525:
 			goto st161
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr234
+				goto tr235
 			}
 		default:
-			goto tr234
+			goto tr235
 		}
 		goto st0
 	st161:
@@ -6166,8 +6185,8 @@ tr221:
 		case 32:
 			goto st163
 		}
-		goto tr234
-tr222:
+		goto tr235
+tr223:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6178,7 +6197,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6173
+//line msg_parse.go:6192
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6192,17 +6211,17 @@ tr222:
 		case 32:
 			goto st164
 		case 33:
-			goto tr238
+			goto tr239
 		case 34:
 			goto st171
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		case 525:
 			goto st182
 		}
@@ -6211,25 +6230,25 @@ tr222:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 42:
-				goto tr238
+				goto tr239
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
-tr238:
+tr239:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6241,7 +6260,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6236
+//line msg_parse.go:6255
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,19 +6274,19 @@ tr238:
 		case 32:
 			goto st166
 		case 33:
-			goto tr238
+			goto tr239
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 44:
 			goto st156
 		case 59:
 			goto st160
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		case 269:
 			goto st170
 		case 525:
@@ -6276,19 +6295,19 @@ tr238:
 		switch {
 		case _widec < 48:
 			if 42 <= _widec && _widec <= 46 {
-				goto tr238
+				goto tr239
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
 	st166:
@@ -6353,7 +6372,7 @@ tr238:
 			goto st160
 		}
 		goto st0
-tr223:
+tr224:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6364,9 +6383,9 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6359
+//line msg_parse.go:6378
 		if data[p] == 10 {
-			goto tr246
+			goto tr247
 		}
 		goto st0
 	st171:
@@ -6383,42 +6402,42 @@ tr223:
 		}
 		switch _widec {
 		case 9:
-			goto tr247
-		case 34:
 			goto tr248
-		case 92:
+		case 34:
 			goto tr249
+		case 92:
+			goto tr250
 		case 525:
-			goto tr255
+			goto tr256
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr250
+					goto tr251
 				}
 			case _widec >= 32:
-				goto tr247
+				goto tr248
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr252
+					goto tr253
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr254
+					goto tr255
 				}
 			default:
-				goto tr253
+				goto tr254
 			}
 		default:
-			goto tr251
+			goto tr252
 		}
 		goto st0
-tr247:
+tr248:
 //line sip.rl:88
 
 	amt = 0
@@ -6429,7 +6448,7 @@ tr247:
 	amt++
 
 	goto st172
-tr256:
+tr257:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6441,7 +6460,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6436
+//line msg_parse.go:6455
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6451,42 +6470,42 @@ tr256:
 		}
 		switch _widec {
 		case 9:
-			goto tr256
+			goto tr257
 		case 34:
 			goto st173
 		case 92:
 			goto st174
 		case 525:
-			goto tr264
+			goto tr265
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr259
+					goto tr260
 				}
 			case _widec >= 32:
-				goto tr256
+				goto tr257
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr261
+					goto tr262
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr263
+					goto tr264
 				}
 			default:
-				goto tr262
+				goto tr263
 			}
 		default:
-			goto tr260
+			goto tr261
 		}
 		goto st0
-tr248:
+tr249:
 //line sip.rl:88
 
 	amt = 0
@@ -6497,7 +6516,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6492
+//line msg_parse.go:6511
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6520,7 +6539,7 @@ tr248:
 			goto st167
 		}
 		goto st0
-tr249:
+tr250:
 //line sip.rl:88
 
 	amt = 0
@@ -6531,21 +6550,21 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6526
+//line msg_parse.go:6545
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr256
+				goto tr257
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr256
+				goto tr257
 			}
 		default:
-			goto tr256
+			goto tr257
 		}
 		goto st0
-tr250:
+tr251:
 //line sip.rl:88
 
 	amt = 0
@@ -6556,7 +6575,7 @@ tr250:
 	amt++
 
 	goto st175
-tr259:
+tr260:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6568,12 +6587,12 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6563
+//line msg_parse.go:6582
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr256
+			goto tr257
 		}
 		goto st0
-tr251:
+tr252:
 //line sip.rl:88
 
 	amt = 0
@@ -6584,7 +6603,7 @@ tr251:
 	amt++
 
 	goto st176
-tr260:
+tr261:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6596,12 +6615,12 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6591
+//line msg_parse.go:6610
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr259
+			goto tr260
 		}
 		goto st0
-tr252:
+tr253:
 //line sip.rl:88
 
 	amt = 0
@@ -6612,7 +6631,7 @@ tr252:
 	amt++
 
 	goto st177
-tr261:
+tr262:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6624,12 +6643,12 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6619
+//line msg_parse.go:6638
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr260
+			goto tr261
 		}
 		goto st0
-tr253:
+tr254:
 //line sip.rl:88
 
 	amt = 0
@@ -6640,7 +6659,7 @@ tr253:
 	amt++
 
 	goto st178
-tr262:
+tr263:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6652,12 +6671,12 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6647
+//line msg_parse.go:6666
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr261
+			goto tr262
 		}
 		goto st0
-tr254:
+tr255:
 //line sip.rl:88
 
 	amt = 0
@@ -6668,7 +6687,7 @@ tr254:
 	amt++
 
 	goto st179
-tr263:
+tr264:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6680,12 +6699,12 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6675
+//line msg_parse.go:6694
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr262
+			goto tr263
 		}
 		goto st0
-tr255:
+tr256:
 //line sip.rl:88
 
 	amt = 0
@@ -6696,7 +6715,7 @@ tr255:
 	amt++
 
 	goto st180
-tr264:
+tr265:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6708,12 +6727,12 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6703
+//line msg_parse.go:6722
 		if data[p] == 10 {
-			goto tr265
+			goto tr266
 		}
 		goto st0
-tr265:
+tr266:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6725,12 +6744,12 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6720
+//line msg_parse.go:6739
 		switch data[p] {
 		case 9:
-			goto tr256
+			goto tr257
 		case 32:
-			goto tr256
+			goto tr257
 		}
 		goto st0
 	st182:
@@ -6765,42 +6784,42 @@ tr265:
 		case 32:
 			goto st184
 		case 33:
-			goto tr238
+			goto tr239
 		case 34:
 			goto st171
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr238
+					goto tr239
 				}
 			case data[p] >= 42:
-				goto tr238
+				goto tr239
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case data[p] >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
-tr224:
+tr225:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6811,7 +6830,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6806
+//line msg_parse.go:6825
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6864,17 +6883,17 @@ tr224:
 		case 32:
 			goto st189
 		case 33:
-			goto tr271
-		case 34:
 			goto tr272
+		case 34:
+			goto tr273
 		case 37:
-			goto tr271
+			goto tr272
 		case 39:
-			goto tr271
+			goto tr272
 		case 60:
 			goto st190
 		case 126:
-			goto tr271
+			goto tr272
 		case 525:
 			goto st210
 		}
@@ -6883,25 +6902,25 @@ tr224:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr271
+					goto tr272
 				}
 			case _widec >= 42:
-				goto tr271
+				goto tr272
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr271
+					goto tr272
 				}
 			case _widec >= 65:
-				goto tr271
+				goto tr272
 			}
 		default:
-			goto tr271
+			goto tr272
 		}
 		goto st0
-tr329:
+tr330:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -6912,7 +6931,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6907
+//line msg_parse.go:6926
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6931,7 +6950,7 @@ tr329:
 			goto st210
 		}
 		goto st0
-tr305:
+tr306:
 //line sip.rl:197
 {
 	end := p
@@ -6941,7 +6960,7 @@ tr305:
 	addr.Display = string(data[mark:end])
 }
 	goto st190
-tr330:
+tr331:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -6952,17 +6971,17 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6947
+//line msg_parse.go:6966
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
-				goto tr275
+				goto tr276
 			}
 		case data[p] >= 65:
-			goto tr275
+			goto tr276
 		}
 		goto st0
-tr275:
+tr276:
 //line sip.rl:80
 
 	mark = p
@@ -6973,7 +6992,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6968
+//line msg_parse.go:6987
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7037,7 +7056,7 @@ tr275:
 		case 33:
 			goto st193
 		case 62:
-			goto tr279
+			goto tr280
 		case 93:
 			goto st193
 		case 95:
@@ -7058,7 +7077,7 @@ tr275:
 			goto st193
 		}
 		goto st0
-tr279:
+tr280:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -7070,7 +7089,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7065
+//line msg_parse.go:7084
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7111,20 +7130,20 @@ tr279:
 		case 32:
 			goto st195
 		case 269:
-			goto tr285
+			goto tr286
 		case 525:
 			goto st196
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr285
+				goto tr286
 			}
 		default:
-			goto tr285
+			goto tr286
 		}
 		goto st0
-tr285:
+tr286:
 //line sip.rl:214
 
 	*addrp = addr
@@ -7139,7 +7158,7 @@ tr285:
 //line sip.rl:252
  {goto st256 } 
 	goto st763
-tr289:
+tr290:
 //line sip.rl:72
 
 	p--
@@ -7148,7 +7167,7 @@ tr289:
 //line sip.rl:254
  {goto st153 } 
 	goto st763
-tr293:
+tr294:
 //line sip.rl:214
 
 	*addrp = addr
@@ -7163,7 +7182,7 @@ tr293:
 			goto _test_eof763
 		}
 	st_case_763:
-//line msg_parse.go:7158
+//line msg_parse.go:7177
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7197,7 +7216,7 @@ tr293:
 		case 32:
 			goto st198
 		}
-		goto tr285
+		goto tr286
 	st199:
 		if p++; p == pe {
 			goto _test_eof199
@@ -7216,17 +7235,17 @@ tr293:
 		case 32:
 			goto st199
 		case 269:
-			goto tr289
+			goto tr290
 		case 525:
 			goto st200
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr289
+				goto tr290
 			}
 		default:
-			goto tr289
+			goto tr290
 		}
 		goto st0
 	st200:
@@ -7261,14 +7280,14 @@ tr293:
 		case 32:
 			goto st202
 		}
-		goto tr289
+		goto tr290
 	st203:
 		if p++; p == pe {
 			goto _test_eof203
 		}
 	st_case_203:
 		if data[p] == 10 {
-			goto tr293
+			goto tr294
 		}
 		goto st0
 	st204:
@@ -7356,7 +7375,7 @@ tr293:
 			goto st199
 		}
 		goto st0
-tr310:
+tr311:
 //line sip.rl:197
 {
 	end := p
@@ -7366,7 +7385,7 @@ tr310:
 	addr.Display = string(data[mark:end])
 }
 	goto st210
-tr331:
+tr332:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -7377,7 +7396,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7372
+//line msg_parse.go:7391
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7408,7 +7427,7 @@ tr331:
 			goto st190
 		}
 		goto st0
-tr271:
+tr272:
 //line sip.rl:80
 
 	mark = p
@@ -7419,7 +7438,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7414
+//line msg_parse.go:7433
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7466,7 +7485,7 @@ tr271:
 			goto st213
 		}
 		goto st0
-tr304:
+tr305:
 //line sip.rl:197
 {
 	end := p
@@ -7481,7 +7500,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7476
+//line msg_parse.go:7495
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7491,9 +7510,9 @@ tr304:
 		}
 		switch _widec {
 		case 9:
-			goto tr304
+			goto tr305
 		case 32:
-			goto tr304
+			goto tr305
 		case 33:
 			goto st213
 		case 37:
@@ -7501,11 +7520,11 @@ tr304:
 		case 39:
 			goto st213
 		case 60:
-			goto tr305
+			goto tr306
 		case 126:
 			goto st213
 		case 525:
-			goto tr306
+			goto tr307
 		}
 		switch {
 		case _widec < 48:
@@ -7530,7 +7549,7 @@ tr304:
 			goto st213
 		}
 		goto st0
-tr306:
+tr307:
 //line sip.rl:197
 {
 	end := p
@@ -7545,7 +7564,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7540
+//line msg_parse.go:7559
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7562,7 +7581,7 @@ tr306:
 			goto st217
 		}
 		goto st0
-tr309:
+tr310:
 //line sip.rl:197
 {
 	end := p
@@ -7577,7 +7596,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7572
+//line msg_parse.go:7591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7587,9 +7606,9 @@ tr309:
 		}
 		switch _widec {
 		case 9:
-			goto tr309
+			goto tr310
 		case 32:
-			goto tr309
+			goto tr310
 		case 33:
 			goto st213
 		case 37:
@@ -7597,11 +7616,11 @@ tr309:
 		case 39:
 			goto st213
 		case 60:
-			goto tr305
+			goto tr306
 		case 126:
 			goto st213
 		case 525:
-			goto tr310
+			goto tr311
 		}
 		switch {
 		case _widec < 48:
@@ -7626,7 +7645,7 @@ tr309:
 			goto st213
 		}
 		goto st0
-tr272:
+tr273:
 //line sip.rl:88
 
 	amt = 0
@@ -7637,7 +7656,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7632
+//line msg_parse.go:7651
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7647,42 +7666,42 @@ tr272:
 		}
 		switch _widec {
 		case 9:
-			goto tr311
-		case 34:
 			goto tr312
-		case 92:
+		case 34:
 			goto tr313
+		case 92:
+			goto tr314
 		case 525:
-			goto tr319
+			goto tr320
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr314
+					goto tr315
 				}
 			case _widec >= 32:
-				goto tr311
+				goto tr312
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr316
+					goto tr317
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr318
+					goto tr319
 				}
 			default:
-				goto tr317
+				goto tr318
 			}
 		default:
-			goto tr315
+			goto tr316
 		}
 		goto st0
-tr311:
+tr312:
 //line sip.rl:88
 
 	amt = 0
@@ -7693,7 +7712,7 @@ tr311:
 	amt++
 
 	goto st219
-tr320:
+tr321:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7705,7 +7724,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7700
+//line msg_parse.go:7719
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7715,42 +7734,42 @@ tr320:
 		}
 		switch _widec {
 		case 9:
-			goto tr320
+			goto tr321
 		case 34:
 			goto st220
 		case 92:
 			goto st221
 		case 525:
-			goto tr328
+			goto tr329
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr323
+					goto tr324
 				}
 			case _widec >= 32:
-				goto tr320
+				goto tr321
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr325
+					goto tr326
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr327
+					goto tr328
 				}
 			default:
-				goto tr326
+				goto tr327
 			}
 		default:
-			goto tr324
+			goto tr325
 		}
 		goto st0
-tr312:
+tr313:
 //line sip.rl:88
 
 	amt = 0
@@ -7761,7 +7780,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7756
+//line msg_parse.go:7775
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7771,16 +7790,16 @@ tr312:
 		}
 		switch _widec {
 		case 9:
-			goto tr329
+			goto tr330
 		case 32:
-			goto tr329
-		case 60:
 			goto tr330
-		case 525:
+		case 60:
 			goto tr331
+		case 525:
+			goto tr332
 		}
 		goto st0
-tr313:
+tr314:
 //line sip.rl:88
 
 	amt = 0
@@ -7791,21 +7810,21 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7786
+//line msg_parse.go:7805
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr320
+				goto tr321
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr320
+				goto tr321
 			}
 		default:
-			goto tr320
+			goto tr321
 		}
 		goto st0
-tr314:
+tr315:
 //line sip.rl:88
 
 	amt = 0
@@ -7816,7 +7835,7 @@ tr314:
 	amt++
 
 	goto st222
-tr323:
+tr324:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7828,12 +7847,12 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7823
+//line msg_parse.go:7842
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr320
+			goto tr321
 		}
 		goto st0
-tr315:
+tr316:
 //line sip.rl:88
 
 	amt = 0
@@ -7844,7 +7863,7 @@ tr315:
 	amt++
 
 	goto st223
-tr324:
+tr325:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7856,12 +7875,12 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7851
+//line msg_parse.go:7870
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr323
+			goto tr324
 		}
 		goto st0
-tr316:
+tr317:
 //line sip.rl:88
 
 	amt = 0
@@ -7872,7 +7891,7 @@ tr316:
 	amt++
 
 	goto st224
-tr325:
+tr326:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7884,12 +7903,12 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7879
+//line msg_parse.go:7898
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr324
+			goto tr325
 		}
 		goto st0
-tr317:
+tr318:
 //line sip.rl:88
 
 	amt = 0
@@ -7900,7 +7919,7 @@ tr317:
 	amt++
 
 	goto st225
-tr326:
+tr327:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7912,12 +7931,12 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7907
+//line msg_parse.go:7926
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr325
+			goto tr326
 		}
 		goto st0
-tr318:
+tr319:
 //line sip.rl:88
 
 	amt = 0
@@ -7928,7 +7947,7 @@ tr318:
 	amt++
 
 	goto st226
-tr327:
+tr328:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7940,12 +7959,12 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7935
+//line msg_parse.go:7954
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr326
+			goto tr327
 		}
 		goto st0
-tr319:
+tr320:
 //line sip.rl:88
 
 	amt = 0
@@ -7956,7 +7975,7 @@ tr319:
 	amt++
 
 	goto st227
-tr328:
+tr329:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7968,12 +7987,12 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7963
+//line msg_parse.go:7982
 		if data[p] == 10 {
-			goto tr332
+			goto tr333
 		}
 		goto st0
-tr332:
+tr333:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7985,12 +8004,12 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7980
+//line msg_parse.go:7999
 		switch data[p] {
 		case 9:
-			goto tr320
+			goto tr321
 		case 32:
-			goto tr320
+			goto tr321
 		}
 		goto st0
 	st229:
@@ -8080,15 +8099,15 @@ tr332:
 		}
 		switch _widec {
 		case 9:
-			goto tr336
+			goto tr337
 		case 32:
-			goto tr336
+			goto tr337
 		case 33:
 			goto st232
 		case 44:
-			goto tr337
-		case 59:
 			goto tr338
+		case 59:
+			goto tr339
 		case 61:
 			goto st232
 		case 93:
@@ -8098,9 +8117,9 @@ tr332:
 		case 126:
 			goto st232
 		case 269:
-			goto tr339
-		case 525:
 			goto tr340
+		case 525:
+			goto tr341
 		}
 		switch {
 		case _widec < 63:
@@ -8115,7 +8134,7 @@ tr332:
 			goto st232
 		}
 		goto st0
-tr336:
+tr337:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8127,7 +8146,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8122
+//line msg_parse.go:8141
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8166,20 +8185,20 @@ tr336:
 		case 32:
 			goto st234
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st235
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr345:
+tr346:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8194,7 +8213,7 @@ tr345:
 //line sip.rl:252
  {goto st256 } 
 	goto st764
-tr349:
+tr350:
 //line sip.rl:72
 
 	p--
@@ -8203,7 +8222,7 @@ tr349:
 //line sip.rl:254
  {goto st153 } 
 	goto st764
-tr375:
+tr376:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8218,7 +8237,7 @@ tr375:
 			goto _test_eof764
 		}
 	st_case_764:
-//line msg_parse.go:8213
+//line msg_parse.go:8232
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8252,7 +8271,7 @@ tr375:
 		case 32:
 			goto st237
 		}
-		goto tr345
+		goto tr346
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
@@ -8271,17 +8290,17 @@ tr375:
 		case 32:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st239
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
 	st239:
@@ -8316,8 +8335,8 @@ tr375:
 		case 32:
 			goto st241
 		}
-		goto tr349
-tr340:
+		goto tr350
+tr341:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8329,7 +8348,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8324
+//line msg_parse.go:8343
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8362,7 +8381,7 @@ tr340:
 			goto st238
 		}
 		goto st0
-tr337:
+tr338:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8374,7 +8393,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8369
+//line msg_parse.go:8388
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8384,51 +8403,51 @@ tr337:
 		}
 		switch _widec {
 		case 9:
-			goto tr355
+			goto tr356
 		case 32:
-			goto tr355
-		case 33:
 			goto tr356
+		case 33:
+			goto tr357
 		case 44:
-			goto tr337
+			goto tr338
 		case 59:
-			goto tr357
+			goto tr358
 		case 60:
-			goto tr345
+			goto tr346
 		case 62:
-			goto tr345
+			goto tr346
 		case 92:
-			goto tr345
+			goto tr346
 		case 94:
-			goto tr345
+			goto tr346
 		case 96:
-			goto tr345
+			goto tr346
 		case 126:
-			goto tr356
+			goto tr357
 		case 269:
-			goto tr358
-		case 525:
 			goto tr359
+		case 525:
+			goto tr360
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr345
+				goto tr346
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr345
+					goto tr346
 				}
 			case _widec >= 36:
-				goto tr356
+				goto tr357
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr355:
+tr356:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8440,7 +8459,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8435
+//line msg_parse.go:8454
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8456,22 +8475,22 @@ tr355:
 		case 44:
 			goto st234
 		case 59:
-			goto tr361
+			goto tr362
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st247
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr361:
+tr362:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8491,7 +8510,7 @@ tr361:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:8486
+//line msg_parse.go:8505
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8505,20 +8524,20 @@ tr361:
 		case 32:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st239
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr359:
+tr360:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8530,7 +8549,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8525
+//line msg_parse.go:8544
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8560,10 +8579,10 @@ tr359:
 		case 44:
 			goto st234
 		case 59:
-			goto tr361
+			goto tr362
 		}
-		goto tr345
-tr356:
+		goto tr346
+tr357:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8578,7 +8597,7 @@ tr356:
 //line sip.rl:252
  {goto st256 } 
 	goto st766
-tr366:
+tr367:
 //line sip.rl:72
 
 	p--
@@ -8592,7 +8611,7 @@ tr366:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:8587
+//line msg_parse.go:8606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8602,15 +8621,15 @@ tr366:
 		}
 		switch _widec {
 		case 9:
-			goto tr336
+			goto tr337
 		case 32:
-			goto tr336
+			goto tr337
 		case 33:
 			goto st232
 		case 44:
-			goto tr337
-		case 59:
 			goto tr338
+		case 59:
+			goto tr339
 		case 61:
 			goto st232
 		case 93:
@@ -8620,9 +8639,9 @@ tr366:
 		case 126:
 			goto st232
 		case 269:
-			goto tr339
-		case 525:
 			goto tr340
+		case 525:
+			goto tr341
 		}
 		switch {
 		case _widec < 63:
@@ -8637,7 +8656,7 @@ tr366:
 			goto st232
 		}
 		goto st0
-tr338:
+tr339:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8649,7 +8668,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8644
+//line msg_parse.go:8663
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8659,51 +8678,51 @@ tr338:
 		}
 		switch _widec {
 		case 9:
-			goto tr365
+			goto tr366
 		case 32:
-			goto tr365
-		case 33:
 			goto tr366
-		case 44:
+		case 33:
 			goto tr367
+		case 44:
+			goto tr368
 		case 59:
-			goto tr338
+			goto tr339
 		case 60:
-			goto tr349
+			goto tr350
 		case 62:
-			goto tr349
+			goto tr350
 		case 92:
-			goto tr349
+			goto tr350
 		case 94:
-			goto tr349
+			goto tr350
 		case 96:
-			goto tr349
+			goto tr350
 		case 126:
-			goto tr366
+			goto tr367
 		case 269:
-			goto tr368
-		case 525:
 			goto tr369
+		case 525:
+			goto tr370
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr349
+				goto tr350
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr349
+					goto tr350
 				}
 			case _widec >= 36:
-				goto tr366
+				goto tr367
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr365:
+tr366:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8715,7 +8734,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8710
+//line msg_parse.go:8729
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8729,24 +8748,24 @@ tr365:
 		case 32:
 			goto st251
 		case 44:
-			goto tr371
+			goto tr372
 		case 59:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st252
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr371:
+tr372:
 //line sip.rl:72
 
 	p--
@@ -8760,7 +8779,7 @@ tr371:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:8755
+//line msg_parse.go:8774
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8774,20 +8793,20 @@ tr371:
 		case 32:
 			goto st234
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st235
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr369:
+tr370:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8799,7 +8818,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8794
+//line msg_parse.go:8813
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8827,12 +8846,12 @@ tr369:
 		case 32:
 			goto st254
 		case 44:
-			goto tr371
+			goto tr372
 		case 59:
 			goto st238
 		}
-		goto tr349
-tr367:
+		goto tr350
+tr368:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8851,7 +8870,7 @@ tr367:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:8846
+//line msg_parse.go:8865
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8861,51 +8880,51 @@ tr367:
 		}
 		switch _widec {
 		case 9:
-			goto tr355
+			goto tr356
 		case 32:
-			goto tr355
-		case 33:
 			goto tr356
+		case 33:
+			goto tr357
 		case 44:
-			goto tr337
+			goto tr338
 		case 59:
-			goto tr357
+			goto tr358
 		case 60:
-			goto tr345
+			goto tr346
 		case 62:
-			goto tr345
+			goto tr346
 		case 92:
-			goto tr345
+			goto tr346
 		case 94:
-			goto tr345
+			goto tr346
 		case 96:
-			goto tr345
+			goto tr346
 		case 126:
-			goto tr356
+			goto tr357
 		case 269:
-			goto tr358
-		case 525:
 			goto tr359
+		case 525:
+			goto tr360
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr345
+				goto tr346
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr345
+					goto tr346
 				}
 			case _widec >= 36:
-				goto tr356
+				goto tr357
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr357:
+tr358:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8930,7 +8949,7 @@ tr357:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:8925
+//line msg_parse.go:8944
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8940,51 +8959,51 @@ tr357:
 		}
 		switch _widec {
 		case 9:
-			goto tr365
+			goto tr366
 		case 32:
-			goto tr365
-		case 33:
 			goto tr366
-		case 44:
+		case 33:
 			goto tr367
+		case 44:
+			goto tr368
 		case 59:
-			goto tr338
+			goto tr339
 		case 60:
-			goto tr349
+			goto tr350
 		case 62:
-			goto tr349
+			goto tr350
 		case 92:
-			goto tr349
+			goto tr350
 		case 94:
-			goto tr349
+			goto tr350
 		case 96:
-			goto tr349
+			goto tr350
 		case 126:
-			goto tr366
+			goto tr367
 		case 269:
-			goto tr368
-		case 525:
 			goto tr369
+		case 525:
+			goto tr370
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr349
+				goto tr350
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr349
+					goto tr350
 				}
 			case _widec >= 36:
-				goto tr366
+				goto tr367
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr358:
+tr359:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9004,7 +9023,7 @@ tr358:
 //line sip.rl:252
  {goto st256 } 
 	goto st770
-tr368:
+tr369:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9023,12 +9042,12 @@ tr368:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:9018
+//line msg_parse.go:9037
 		if data[p] == 10 {
-			goto tr375
+			goto tr376
 		}
 		goto st0
-tr339:
+tr340:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9040,9 +9059,9 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9035
+//line msg_parse.go:9054
 		if data[p] == 10 {
-			goto tr375
+			goto tr376
 		}
 		goto st0
 	st256:
@@ -9052,46 +9071,46 @@ tr339:
 	st_case_256:
 		switch data[p] {
 		case 33:
-			goto tr376
-		case 34:
 			goto tr377
+		case 34:
+			goto tr378
 		case 37:
-			goto tr376
+			goto tr377
 		case 39:
-			goto tr376
-		case 60:
 			goto tr377
+		case 60:
+			goto tr378
 		case 126:
-			goto tr376
+			goto tr377
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr376
+					goto tr377
 				}
 			case data[p] >= 42:
-				goto tr376
+				goto tr377
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 90 {
-					goto tr378
+					goto tr379
 				}
 			case data[p] > 96:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr378
+					goto tr379
 				}
 			default:
-				goto tr376
+				goto tr377
 			}
 		default:
-			goto tr376
+			goto tr377
 		}
 		goto st0
-tr376:
+tr377:
 //line sip.rl:80
 
 	mark = p
@@ -9102,7 +9121,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9097
+//line msg_parse.go:9116
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9173,7 +9192,7 @@ tr376:
 		case 39:
 			goto st257
 		case 60:
-			goto tr382
+			goto tr383
 		case 126:
 			goto st257
 		case 525:
@@ -9202,7 +9221,7 @@ tr376:
 			goto st257
 		}
 		goto st0
-tr377:
+tr378:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9215,7 +9234,7 @@ tr377:
 //line sip.rl:253
  {goto st188 } 
 	goto st771
-tr382:
+tr383:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9228,7 +9247,7 @@ tr382:
 //line sip.rl:253
  {goto st188 } 
 	goto st771
-tr386:
+tr387:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9246,7 +9265,7 @@ tr386:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:9241
+//line msg_parse.go:9260
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9286,7 +9305,7 @@ tr386:
 		case 39:
 			goto st257
 		case 60:
-			goto tr382
+			goto tr383
 		case 126:
 			goto st257
 		}
@@ -9313,7 +9332,7 @@ tr386:
 			goto st257
 		}
 		goto st0
-tr378:
+tr379:
 //line sip.rl:80
 
 	mark = p
@@ -9324,7 +9343,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9319
+//line msg_parse.go:9338
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9348,7 +9367,7 @@ tr378:
 		case 43:
 			goto st262
 		case 58:
-			goto tr386
+			goto tr387
 		case 126:
 			goto st257
 		case 525:
@@ -9391,40 +9410,40 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto tr387
+			goto tr388
 		case 269:
-			goto tr393
-		case 525:
 			goto tr394
+		case 525:
+			goto tr395
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr388
+					goto tr389
 				}
 			case _widec >= 32:
-				goto tr387
+				goto tr388
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr390
+					goto tr391
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr392
+					goto tr393
 				}
 			default:
-				goto tr391
+				goto tr392
 			}
 		default:
-			goto tr389
+			goto tr390
 		}
 		goto st0
-tr387:
+tr388:
 //line sip.rl:80
 
 	mark = p
@@ -9435,7 +9454,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9430
+//line msg_parse.go:9449
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9478,7 +9497,7 @@ tr387:
 			goto st266
 		}
 		goto st0
-tr388:
+tr389:
 //line sip.rl:80
 
 	mark = p
@@ -9489,12 +9508,12 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9484
+//line msg_parse.go:9503
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
 		goto st0
-tr389:
+tr390:
 //line sip.rl:80
 
 	mark = p
@@ -9505,12 +9524,12 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9500
+//line msg_parse.go:9519
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
 		goto st0
-tr390:
+tr391:
 //line sip.rl:80
 
 	mark = p
@@ -9521,12 +9540,12 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9516
+//line msg_parse.go:9535
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
 		goto st0
-tr391:
+tr392:
 //line sip.rl:80
 
 	mark = p
@@ -9537,12 +9556,12 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9532
+//line msg_parse.go:9551
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
 		goto st0
-tr392:
+tr393:
 //line sip.rl:80
 
 	mark = p
@@ -9553,12 +9572,12 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9548
+//line msg_parse.go:9567
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
 		goto st0
-tr393:
+tr394:
 //line sip.rl:80
 
 	mark = p
@@ -9569,12 +9588,12 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9564
+//line msg_parse.go:9583
 		if data[p] == 10 {
-			goto tr403
+			goto tr404
 		}
 		goto st0
-tr403:
+tr404:
 //line sip.rl:180
 {
 	b := data[mark:p - 1]
@@ -9592,9 +9611,9 @@ tr403:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:9587
+//line msg_parse.go:9606
 		goto st0
-tr394:
+tr395:
 //line sip.rl:80
 
 	mark = p
@@ -9605,7 +9624,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9600
+//line msg_parse.go:9619
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9667,9 +9686,9 @@ tr394:
 	st_case_274:
 		switch data[p] {
 		case 9:
-			goto tr406
+			goto tr407
 		case 32:
-			goto tr406
+			goto tr407
 		case 33:
 			goto st274
 		case 37:
@@ -9677,7 +9696,7 @@ tr394:
 		case 39:
 			goto st274
 		case 58:
-			goto tr407
+			goto tr408
 		case 126:
 			goto st274
 		}
@@ -9704,7 +9723,7 @@ tr394:
 			goto st274
 		}
 		goto st0
-tr406:
+tr407:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -9715,7 +9734,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9710
+//line msg_parse.go:9729
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9725,7 +9744,7 @@ tr406:
 			goto st276
 		}
 		goto st0
-tr407:
+tr408:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -9736,7 +9755,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9731
+//line msg_parse.go:9750
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9750,20 +9769,20 @@ tr407:
 		case 32:
 			goto st276
 		case 269:
-			goto tr410
+			goto tr411
 		case 525:
 			goto st277
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr410
+				goto tr411
 			}
 		default:
-			goto tr410
+			goto tr411
 		}
 		goto st0
-tr410:
+tr411:
 //line sip.rl:532
 value=nil
 //line sip.rl:72
@@ -9779,7 +9798,7 @@ value=nil
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:9774
+//line msg_parse.go:9793
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9813,7 +9832,7 @@ value=nil
 		case 32:
 			goto st279
 		}
-		goto tr410
+		goto tr411
 	st280:
 		if p++; p == pe {
 			goto _test_eof280
@@ -9828,13 +9847,13 @@ value=nil
 		}
 		switch _widec {
 		case 33:
-			goto tr414
+			goto tr415
 		case 37:
-			goto tr414
+			goto tr415
 		case 39:
-			goto tr414
+			goto tr415
 		case 126:
-			goto tr414
+			goto tr415
 		case 269:
 			goto st757
 		}
@@ -9843,25 +9862,25 @@ value=nil
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr414
+					goto tr415
 				}
 			case _widec >= 42:
-				goto tr414
+				goto tr415
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr414
+					goto tr415
 				}
 			case _widec >= 65:
-				goto tr414
+				goto tr415
 			}
 		default:
-			goto tr414
+			goto tr415
 		}
 		goto st0
-tr414:
+tr415:
 //line sip.rl:80
 
 	mark = p
@@ -9877,7 +9896,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9872
+//line msg_parse.go:9891
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9952,7 +9971,7 @@ tr414:
 		case 119:
 			goto st735
 		}
-		goto tr416
+		goto tr417
 	st282:
 		if p++; p == pe {
 			goto _test_eof282
@@ -9960,11 +9979,11 @@ tr414:
 	st_case_282:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		case 67:
 			goto st288
 		case 76:
@@ -9978,148 +9997,148 @@ tr414:
 		case 117:
 			goto st336
 		}
-		goto tr416
-tr435:
+		goto tr417
+tr436:
 //line sip.rl:451
 value=&msg.AcceptContact
 	goto st283
-tr450:
+tr451:
 //line sip.rl:450
 value=&msg.Accept
 	goto st283
-tr469:
+tr470:
 //line sip.rl:452
 value=&msg.AcceptEncoding
 	goto st283
-tr478:
+tr479:
 //line sip.rl:453
 value=&msg.AcceptLanguage
 	goto st283
-tr489:
+tr490:
 //line sip.rl:456
 value=&msg.AlertInfo
 	goto st283
-tr493:
+tr494:
 //line sip.rl:454
 value=&msg.Allow
 	goto st283
-tr502:
+tr503:
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st283
-tr522:
+tr523:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
 	goto st283
-tr532:
+tr533:
 //line sip.rl:458
 value=&msg.Authorization
 	goto st283
-tr534:
+tr535:
 //line sip.rl:475
 value=&msg.ReferredBy
 	goto st283
-tr564:
+tr565:
 //line sip.rl:462
 value=&msg.CallInfo
 	goto st283
-tr597:
+tr598:
 //line sip.rl:459
 value=&msg.ContentDisposition
 	goto st283
-tr606:
+tr607:
 //line sip.rl:461
 value=&msg.ContentEncoding
 	goto st283
-tr616:
+tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr650:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr663:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr668:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr697:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr699:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr731:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr759:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr789:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr808:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr818:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr826:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr828:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr878:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr884:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr894:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr901:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr909:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr933:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr946:
+tr947:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr956:
+tr957:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr973:
+tr974:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr989:
+tr990:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10128,7 +10147,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10123
+//line msg_parse.go:10142
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10138,147 +10157,147 @@ value=&msg.WWWAuthenticate
 			goto st284
 		}
 		goto st0
-tr436:
+tr437:
 //line sip.rl:451
 value=&msg.AcceptContact
 	goto st284
-tr452:
+tr453:
 //line sip.rl:450
 value=&msg.Accept
 	goto st284
-tr470:
+tr471:
 //line sip.rl:452
 value=&msg.AcceptEncoding
 	goto st284
-tr479:
+tr480:
 //line sip.rl:453
 value=&msg.AcceptLanguage
 	goto st284
-tr490:
+tr491:
 //line sip.rl:456
 value=&msg.AlertInfo
 	goto st284
-tr495:
+tr496:
 //line sip.rl:454
 value=&msg.Allow
 	goto st284
-tr503:
+tr504:
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr523:
+tr524:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
 	goto st284
-tr533:
+tr534:
 //line sip.rl:458
 value=&msg.Authorization
 	goto st284
-tr535:
+tr536:
 //line sip.rl:475
 value=&msg.ReferredBy
 	goto st284
-tr565:
+tr566:
 //line sip.rl:462
 value=&msg.CallInfo
 	goto st284
-tr598:
+tr599:
 //line sip.rl:459
 value=&msg.ContentDisposition
 	goto st284
-tr607:
+tr608:
 //line sip.rl:461
 value=&msg.ContentEncoding
 	goto st284
-tr617:
+tr618:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr651:
+tr652:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr664:
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr669:
+tr670:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr698:
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr700:
+tr701:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr732:
+tr733:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr760:
+tr761:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr790:
+tr791:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr809:
+tr810:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr819:
+tr820:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr827:
+tr828:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr829:
+tr830:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr879:
+tr880:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr885:
+tr886:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr895:
+tr896:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr902:
+tr903:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr910:
+tr911:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr934:
+tr935:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr947:
+tr948:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr957:
+tr958:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr974:
+tr975:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr990:
+tr991:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10287,7 +10306,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10282
+//line msg_parse.go:10301
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10301,24 +10320,24 @@ value=&msg.WWWAuthenticate
 		case 32:
 			goto st284
 		case 269:
-			goto tr442
+			goto tr443
 		case 525:
 			goto st285
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr442
+				goto tr443
 			}
 		default:
-			goto tr442
+			goto tr443
 		}
 		goto st0
-tr559:
+tr560:
 //line sip.rl:257
  {goto st280 } 
 	goto st774
-tr442:
+tr443:
 //line sip.rl:72
 
 	p--
@@ -10327,7 +10346,7 @@ tr442:
 //line sip.rl:258
  {goto st263 } 
 	goto st774
-tr541:
+tr542:
 //line sip.rl:72
 
 	p--
@@ -10336,7 +10355,7 @@ tr541:
 //line sip.rl:256
  {goto st34 } 
 	goto st774
-tr576:
+tr577:
 //line sip.rl:534
 value=nil
 //line sip.rl:72
@@ -10347,7 +10366,7 @@ value=nil
 //line sip.rl:252
  {goto st256 } 
 	goto st774
-tr961:
+tr962:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10360,7 +10379,7 @@ tr961:
 //line sip.rl:259
  {goto st103 } 
 	goto st774
-tr991:
+tr992:
 //line sip.rl:76
 
 	{p++; cs = 774; goto _out }
@@ -10371,7 +10390,7 @@ tr991:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:10366
+//line msg_parse.go:10385
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -10405,7 +10424,7 @@ tr991:
 		case 32:
 			goto st287
 		}
-		goto tr442
+		goto tr443
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
@@ -10417,7 +10436,7 @@ tr991:
 		case 99:
 			goto st289
 		}
-		goto tr416
+		goto tr417
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
@@ -10429,7 +10448,7 @@ tr991:
 		case 101:
 			goto st290
 		}
-		goto tr416
+		goto tr417
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
@@ -10441,7 +10460,7 @@ tr991:
 		case 112:
 			goto st291
 		}
-		goto tr416
+		goto tr417
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
@@ -10453,7 +10472,7 @@ tr991:
 		case 116:
 			goto st292
 		}
-		goto tr416
+		goto tr417
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
@@ -10461,15 +10480,15 @@ tr991:
 	st_case_292:
 		switch data[p] {
 		case 9:
-			goto tr450
+			goto tr451
 		case 32:
-			goto tr450
+			goto tr451
 		case 45:
 			goto st293
 		case 58:
-			goto tr452
+			goto tr453
 		}
-		goto tr416
+		goto tr417
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
@@ -10489,7 +10508,7 @@ tr991:
 		case 108:
 			goto st309
 		}
-		goto tr416
+		goto tr417
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
@@ -10501,7 +10520,7 @@ tr991:
 		case 111:
 			goto st295
 		}
-		goto tr416
+		goto tr417
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
@@ -10513,7 +10532,7 @@ tr991:
 		case 110:
 			goto st296
 		}
-		goto tr416
+		goto tr417
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
@@ -10525,7 +10544,7 @@ tr991:
 		case 116:
 			goto st297
 		}
-		goto tr416
+		goto tr417
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
@@ -10537,7 +10556,7 @@ tr991:
 		case 97:
 			goto st298
 		}
-		goto tr416
+		goto tr417
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
@@ -10549,7 +10568,7 @@ tr991:
 		case 99:
 			goto st299
 		}
-		goto tr416
+		goto tr417
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
@@ -10561,7 +10580,7 @@ tr991:
 		case 116:
 			goto st300
 		}
-		goto tr416
+		goto tr417
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
@@ -10569,13 +10588,13 @@ tr991:
 	st_case_300:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		}
-		goto tr416
+		goto tr417
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
@@ -10587,7 +10606,7 @@ tr991:
 		case 110:
 			goto st302
 		}
-		goto tr416
+		goto tr417
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
@@ -10599,7 +10618,7 @@ tr991:
 		case 99:
 			goto st303
 		}
-		goto tr416
+		goto tr417
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
@@ -10611,7 +10630,7 @@ tr991:
 		case 111:
 			goto st304
 		}
-		goto tr416
+		goto tr417
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
@@ -10623,7 +10642,7 @@ tr991:
 		case 100:
 			goto st305
 		}
-		goto tr416
+		goto tr417
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
@@ -10635,7 +10654,7 @@ tr991:
 		case 105:
 			goto st306
 		}
-		goto tr416
+		goto tr417
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
@@ -10647,7 +10666,7 @@ tr991:
 		case 110:
 			goto st307
 		}
-		goto tr416
+		goto tr417
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
@@ -10659,7 +10678,7 @@ tr991:
 		case 103:
 			goto st308
 		}
-		goto tr416
+		goto tr417
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
@@ -10667,13 +10686,13 @@ tr991:
 	st_case_308:
 		switch data[p] {
 		case 9:
-			goto tr469
+			goto tr470
 		case 32:
-			goto tr469
-		case 58:
 			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr416
+		goto tr417
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
@@ -10685,7 +10704,7 @@ tr991:
 		case 97:
 			goto st310
 		}
-		goto tr416
+		goto tr417
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
@@ -10697,7 +10716,7 @@ tr991:
 		case 110:
 			goto st311
 		}
-		goto tr416
+		goto tr417
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
@@ -10709,7 +10728,7 @@ tr991:
 		case 103:
 			goto st312
 		}
-		goto tr416
+		goto tr417
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
@@ -10721,7 +10740,7 @@ tr991:
 		case 117:
 			goto st313
 		}
-		goto tr416
+		goto tr417
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
@@ -10733,7 +10752,7 @@ tr991:
 		case 97:
 			goto st314
 		}
-		goto tr416
+		goto tr417
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
@@ -10745,7 +10764,7 @@ tr991:
 		case 103:
 			goto st315
 		}
-		goto tr416
+		goto tr417
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
@@ -10757,7 +10776,7 @@ tr991:
 		case 101:
 			goto st316
 		}
-		goto tr416
+		goto tr417
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
@@ -10765,13 +10784,13 @@ tr991:
 	st_case_316:
 		switch data[p] {
 		case 9:
-			goto tr478
+			goto tr479
 		case 32:
-			goto tr478
-		case 58:
 			goto tr479
+		case 58:
+			goto tr480
 		}
-		goto tr416
+		goto tr417
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
@@ -10787,7 +10806,7 @@ tr991:
 		case 108:
 			goto st326
 		}
-		goto tr416
+		goto tr417
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
@@ -10799,7 +10818,7 @@ tr991:
 		case 114:
 			goto st319
 		}
-		goto tr416
+		goto tr417
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
@@ -10811,7 +10830,7 @@ tr991:
 		case 116:
 			goto st320
 		}
-		goto tr416
+		goto tr417
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
@@ -10820,7 +10839,7 @@ tr991:
 		if data[p] == 45 {
 			goto st321
 		}
-		goto tr416
+		goto tr417
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
@@ -10832,7 +10851,7 @@ tr991:
 		case 105:
 			goto st322
 		}
-		goto tr416
+		goto tr417
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
@@ -10844,7 +10863,7 @@ tr991:
 		case 110:
 			goto st323
 		}
-		goto tr416
+		goto tr417
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
@@ -10856,7 +10875,7 @@ tr991:
 		case 102:
 			goto st324
 		}
-		goto tr416
+		goto tr417
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
@@ -10868,7 +10887,7 @@ tr991:
 		case 111:
 			goto st325
 		}
-		goto tr416
+		goto tr417
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
@@ -10876,13 +10895,13 @@ tr991:
 	st_case_325:
 		switch data[p] {
 		case 9:
-			goto tr489
+			goto tr490
 		case 32:
-			goto tr489
-		case 58:
 			goto tr490
+		case 58:
+			goto tr491
 		}
-		goto tr416
+		goto tr417
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
@@ -10894,7 +10913,7 @@ tr991:
 		case 111:
 			goto st327
 		}
-		goto tr416
+		goto tr417
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
@@ -10906,7 +10925,7 @@ tr991:
 		case 119:
 			goto st328
 		}
-		goto tr416
+		goto tr417
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
@@ -10914,15 +10933,15 @@ tr991:
 	st_case_328:
 		switch data[p] {
 		case 9:
-			goto tr493
+			goto tr494
 		case 32:
-			goto tr493
+			goto tr494
 		case 45:
 			goto st329
 		case 58:
-			goto tr495
+			goto tr496
 		}
-		goto tr416
+		goto tr417
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
@@ -10934,7 +10953,7 @@ tr991:
 		case 101:
 			goto st330
 		}
-		goto tr416
+		goto tr417
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
@@ -10946,7 +10965,7 @@ tr991:
 		case 118:
 			goto st331
 		}
-		goto tr416
+		goto tr417
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
@@ -10958,7 +10977,7 @@ tr991:
 		case 101:
 			goto st332
 		}
-		goto tr416
+		goto tr417
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
@@ -10970,7 +10989,7 @@ tr991:
 		case 110:
 			goto st333
 		}
-		goto tr416
+		goto tr417
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
@@ -10982,7 +11001,7 @@ tr991:
 		case 116:
 			goto st334
 		}
-		goto tr416
+		goto tr417
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
@@ -10994,7 +11013,7 @@ tr991:
 		case 115:
 			goto st335
 		}
-		goto tr416
+		goto tr417
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
@@ -11002,13 +11021,13 @@ tr991:
 	st_case_335:
 		switch data[p] {
 		case 9:
-			goto tr502
+			goto tr503
 		case 32:
-			goto tr502
-		case 58:
 			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr416
+		goto tr417
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
@@ -11020,7 +11039,7 @@ tr991:
 		case 116:
 			goto st337
 		}
-		goto tr416
+		goto tr417
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
@@ -11032,7 +11051,7 @@ tr991:
 		case 104:
 			goto st338
 		}
-		goto tr416
+		goto tr417
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
@@ -11048,7 +11067,7 @@ tr991:
 		case 111:
 			goto st354
 		}
-		goto tr416
+		goto tr417
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
@@ -11060,7 +11079,7 @@ tr991:
 		case 110:
 			goto st340
 		}
-		goto tr416
+		goto tr417
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
@@ -11072,7 +11091,7 @@ tr991:
 		case 116:
 			goto st341
 		}
-		goto tr416
+		goto tr417
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
@@ -11084,7 +11103,7 @@ tr991:
 		case 105:
 			goto st342
 		}
-		goto tr416
+		goto tr417
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
@@ -11096,7 +11115,7 @@ tr991:
 		case 99:
 			goto st343
 		}
-		goto tr416
+		goto tr417
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
@@ -11108,7 +11127,7 @@ tr991:
 		case 97:
 			goto st344
 		}
-		goto tr416
+		goto tr417
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
@@ -11120,7 +11139,7 @@ tr991:
 		case 116:
 			goto st345
 		}
-		goto tr416
+		goto tr417
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
@@ -11132,7 +11151,7 @@ tr991:
 		case 105:
 			goto st346
 		}
-		goto tr416
+		goto tr417
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
@@ -11144,7 +11163,7 @@ tr991:
 		case 111:
 			goto st347
 		}
-		goto tr416
+		goto tr417
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
@@ -11156,7 +11175,7 @@ tr991:
 		case 110:
 			goto st348
 		}
-		goto tr416
+		goto tr417
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
@@ -11165,7 +11184,7 @@ tr991:
 		if data[p] == 45 {
 			goto st349
 		}
-		goto tr416
+		goto tr417
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
@@ -11177,7 +11196,7 @@ tr991:
 		case 105:
 			goto st350
 		}
-		goto tr416
+		goto tr417
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
@@ -11189,7 +11208,7 @@ tr991:
 		case 110:
 			goto st351
 		}
-		goto tr416
+		goto tr417
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
@@ -11201,7 +11220,7 @@ tr991:
 		case 102:
 			goto st352
 		}
-		goto tr416
+		goto tr417
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
@@ -11213,7 +11232,7 @@ tr991:
 		case 111:
 			goto st353
 		}
-		goto tr416
+		goto tr417
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -11221,13 +11240,13 @@ tr991:
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr522
+			goto tr523
 		case 32:
-			goto tr522
-		case 58:
 			goto tr523
+		case 58:
+			goto tr524
 		}
-		goto tr416
+		goto tr417
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
@@ -11239,7 +11258,7 @@ tr991:
 		case 114:
 			goto st355
 		}
-		goto tr416
+		goto tr417
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
@@ -11251,7 +11270,7 @@ tr991:
 		case 105:
 			goto st356
 		}
-		goto tr416
+		goto tr417
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
@@ -11263,7 +11282,7 @@ tr991:
 		case 122:
 			goto st357
 		}
-		goto tr416
+		goto tr417
 	st357:
 		if p++; p == pe {
 			goto _test_eof357
@@ -11275,7 +11294,7 @@ tr991:
 		case 97:
 			goto st358
 		}
-		goto tr416
+		goto tr417
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
@@ -11287,7 +11306,7 @@ tr991:
 		case 116:
 			goto st359
 		}
-		goto tr416
+		goto tr417
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
@@ -11299,7 +11318,7 @@ tr991:
 		case 105:
 			goto st360
 		}
-		goto tr416
+		goto tr417
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
@@ -11311,7 +11330,7 @@ tr991:
 		case 111:
 			goto st361
 		}
-		goto tr416
+		goto tr417
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
@@ -11323,7 +11342,7 @@ tr991:
 		case 110:
 			goto st362
 		}
-		goto tr416
+		goto tr417
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
@@ -11331,13 +11350,13 @@ tr991:
 	st_case_362:
 		switch data[p] {
 		case 9:
-			goto tr532
+			goto tr533
 		case 32:
-			goto tr532
-		case 58:
 			goto tr533
+		case 58:
+			goto tr534
 		}
-		goto tr416
+		goto tr417
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
@@ -11345,13 +11364,13 @@ tr991:
 	st_case_363:
 		switch data[p] {
 		case 9:
-			goto tr534
+			goto tr535
 		case 32:
-			goto tr534
-		case 58:
 			goto tr535
+		case 58:
+			goto tr536
 		}
-		goto tr416
+		goto tr417
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
@@ -11377,7 +11396,7 @@ tr991:
 		case 115:
 			goto st445
 		}
-		goto tr416
+		goto tr417
 	st365:
 		if p++; p == pe {
 			goto _test_eof365
@@ -11410,17 +11429,17 @@ tr991:
 		case 32:
 			goto st366
 		case 269:
-			goto tr541
+			goto tr542
 		case 525:
 			goto st367
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr541
+				goto tr542
 			}
 		default:
-			goto tr541
+			goto tr542
 		}
 		goto st0
 	st367:
@@ -11455,7 +11474,7 @@ tr991:
 		case 32:
 			goto st369
 		}
-		goto tr541
+		goto tr542
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
@@ -11467,7 +11486,7 @@ tr991:
 		case 108:
 			goto st371
 		}
-		goto tr416
+		goto tr417
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11479,7 +11498,7 @@ tr991:
 		case 108:
 			goto st372
 		}
-		goto tr416
+		goto tr417
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
@@ -11488,7 +11507,7 @@ tr991:
 		if data[p] == 45 {
 			goto st373
 		}
-		goto tr416
+		goto tr417
 	st373:
 		if p++; p == pe {
 			goto _test_eof373
@@ -11500,7 +11519,7 @@ tr991:
 		case 105:
 			goto st374
 		}
-		goto tr416
+		goto tr417
 	st374:
 		if p++; p == pe {
 			goto _test_eof374
@@ -11516,7 +11535,7 @@ tr991:
 		case 110:
 			goto st385
 		}
-		goto tr416
+		goto tr417
 	st375:
 		if p++; p == pe {
 			goto _test_eof375
@@ -11530,7 +11549,7 @@ tr991:
 		case 58:
 			goto st377
 		}
-		goto tr416
+		goto tr417
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
@@ -11563,9 +11582,9 @@ tr991:
 		case 32:
 			goto st377
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		case 525:
 			goto st382
 		}
@@ -11574,33 +11593,33 @@ tr991:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-tr553:
+tr554:
 //line sip.rl:80
 
 	mark = p
@@ -11611,7 +11630,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11606
+//line msg_parse.go:11625
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11627,7 +11646,7 @@ tr553:
 		case 64:
 			goto st379
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 45:
@@ -11716,7 +11735,7 @@ tr553:
 		case 60:
 			goto st380
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 62:
@@ -11749,13 +11768,13 @@ tr553:
 			goto st380
 		}
 		goto st0
-tr557:
+tr558:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr642:
+tr643:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11766,9 +11785,9 @@ tr642:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11761
+//line msg_parse.go:11780
 		if data[p] == 10 {
-			goto tr559
+			goto tr560
 		}
 		goto st0
 	st382:
@@ -11803,39 +11822,39 @@ tr642:
 		case 32:
 			goto st384
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
 	st385:
@@ -11849,7 +11868,7 @@ tr642:
 		case 102:
 			goto st386
 		}
-		goto tr416
+		goto tr417
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
@@ -11861,7 +11880,7 @@ tr642:
 		case 111:
 			goto st387
 		}
-		goto tr416
+		goto tr417
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
@@ -11869,13 +11888,13 @@ tr642:
 	st_case_387:
 		switch data[p] {
 		case 9:
-			goto tr564
+			goto tr565
 		case 32:
-			goto tr564
-		case 58:
 			goto tr565
+		case 58:
+			goto tr566
 		}
-		goto tr416
+		goto tr417
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
@@ -11887,7 +11906,7 @@ tr642:
 		case 110:
 			goto st389
 		}
-		goto tr416
+		goto tr417
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
@@ -11899,7 +11918,7 @@ tr642:
 		case 116:
 			goto st390
 		}
-		goto tr416
+		goto tr417
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
@@ -11915,7 +11934,7 @@ tr642:
 		case 101:
 			goto st399
 		}
-		goto tr416
+		goto tr417
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
@@ -11927,7 +11946,7 @@ tr642:
 		case 99:
 			goto st392
 		}
-		goto tr416
+		goto tr417
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
@@ -11939,7 +11958,7 @@ tr642:
 		case 116:
 			goto st393
 		}
-		goto tr416
+		goto tr417
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
@@ -11947,38 +11966,38 @@ tr642:
 	st_case_393:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		}
-		goto tr416
-tr572:
+		goto tr417
+tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr682:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr780:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr847:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr871:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr899:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr922:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -11987,7 +12006,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:11982
+//line msg_parse.go:12001
 		switch data[p] {
 		case 9:
 			goto st394
@@ -11997,31 +12016,31 @@ addrp=lastAddr(&msg.To)
 			goto st395
 		}
 		goto st0
-tr573:
+tr574:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr683:
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr781:
+tr782:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr848:
+tr849:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr872:
+tr873:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr900:
+tr901:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr923:
+tr924:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12030,7 +12049,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12025
+//line msg_parse.go:12044
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12044,17 +12063,17 @@ addrp=lastAddr(&msg.To)
 		case 32:
 			goto st395
 		case 269:
-			goto tr576
+			goto tr577
 		case 525:
 			goto st396
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr576
+				goto tr577
 			}
 		default:
-			goto tr576
+			goto tr577
 		}
 		goto st0
 	st396:
@@ -12089,7 +12108,7 @@ addrp=lastAddr(&msg.To)
 		case 32:
 			goto st398
 		}
-		goto tr576
+		goto tr577
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
@@ -12101,7 +12120,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st400
 		}
-		goto tr416
+		goto tr417
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
@@ -12113,7 +12132,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st401
 		}
-		goto tr416
+		goto tr417
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
@@ -12122,7 +12141,7 @@ addrp=lastAddr(&msg.To)
 		if data[p] == 45 {
 			goto st402
 		}
-		goto tr416
+		goto tr417
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
@@ -12146,7 +12165,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st441
 		}
-		goto tr416
+		goto tr417
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
@@ -12158,7 +12177,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st404
 		}
-		goto tr416
+		goto tr417
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
@@ -12170,7 +12189,7 @@ addrp=lastAddr(&msg.To)
 		case 115:
 			goto st405
 		}
-		goto tr416
+		goto tr417
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
@@ -12182,7 +12201,7 @@ addrp=lastAddr(&msg.To)
 		case 112:
 			goto st406
 		}
-		goto tr416
+		goto tr417
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
@@ -12194,7 +12213,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st407
 		}
-		goto tr416
+		goto tr417
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
@@ -12206,7 +12225,7 @@ addrp=lastAddr(&msg.To)
 		case 115:
 			goto st408
 		}
-		goto tr416
+		goto tr417
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
@@ -12218,7 +12237,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st409
 		}
-		goto tr416
+		goto tr417
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
@@ -12230,7 +12249,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st410
 		}
-		goto tr416
+		goto tr417
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
@@ -12242,7 +12261,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st411
 		}
-		goto tr416
+		goto tr417
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
@@ -12254,7 +12273,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st412
 		}
-		goto tr416
+		goto tr417
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
@@ -12266,7 +12285,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st413
 		}
-		goto tr416
+		goto tr417
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
@@ -12274,13 +12293,13 @@ addrp=lastAddr(&msg.To)
 	st_case_413:
 		switch data[p] {
 		case 9:
-			goto tr597
+			goto tr598
 		case 32:
-			goto tr597
-		case 58:
 			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr416
+		goto tr417
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
@@ -12292,7 +12311,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st415
 		}
-		goto tr416
+		goto tr417
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
@@ -12304,7 +12323,7 @@ addrp=lastAddr(&msg.To)
 		case 99:
 			goto st416
 		}
-		goto tr416
+		goto tr417
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
@@ -12316,7 +12335,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st417
 		}
-		goto tr416
+		goto tr417
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
@@ -12328,7 +12347,7 @@ addrp=lastAddr(&msg.To)
 		case 100:
 			goto st418
 		}
-		goto tr416
+		goto tr417
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
@@ -12340,7 +12359,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st419
 		}
-		goto tr416
+		goto tr417
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
@@ -12352,7 +12371,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st420
 		}
-		goto tr416
+		goto tr417
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
@@ -12364,7 +12383,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st421
 		}
-		goto tr416
+		goto tr417
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
@@ -12372,13 +12391,13 @@ addrp=lastAddr(&msg.To)
 	st_case_421:
 		switch data[p] {
 		case 9:
-			goto tr606
+			goto tr607
 		case 32:
-			goto tr606
-		case 58:
 			goto tr607
+		case 58:
+			goto tr608
 		}
-		goto tr416
+		goto tr417
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
@@ -12394,7 +12413,7 @@ addrp=lastAddr(&msg.To)
 		case 101:
 			goto st430
 		}
-		goto tr416
+		goto tr417
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
@@ -12406,7 +12425,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st424
 		}
-		goto tr416
+		goto tr417
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
@@ -12418,7 +12437,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st425
 		}
-		goto tr416
+		goto tr417
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
@@ -12430,7 +12449,7 @@ addrp=lastAddr(&msg.To)
 		case 117:
 			goto st426
 		}
-		goto tr416
+		goto tr417
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
@@ -12442,7 +12461,7 @@ addrp=lastAddr(&msg.To)
 		case 97:
 			goto st427
 		}
-		goto tr416
+		goto tr417
 	st427:
 		if p++; p == pe {
 			goto _test_eof427
@@ -12454,7 +12473,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st428
 		}
-		goto tr416
+		goto tr417
 	st428:
 		if p++; p == pe {
 			goto _test_eof428
@@ -12466,7 +12485,7 @@ addrp=lastAddr(&msg.To)
 		case 101:
 			goto st429
 		}
-		goto tr416
+		goto tr417
 	st429:
 		if p++; p == pe {
 			goto _test_eof429
@@ -12474,13 +12493,13 @@ addrp=lastAddr(&msg.To)
 	st_case_429:
 		switch data[p] {
 		case 9:
-			goto tr616
+			goto tr617
 		case 32:
-			goto tr616
-		case 58:
 			goto tr617
+		case 58:
+			goto tr618
 		}
-		goto tr416
+		goto tr417
 	st430:
 		if p++; p == pe {
 			goto _test_eof430
@@ -12492,7 +12511,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st431
 		}
-		goto tr416
+		goto tr417
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
@@ -12504,7 +12523,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st432
 		}
-		goto tr416
+		goto tr417
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
@@ -12516,7 +12535,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st433
 		}
-		goto tr416
+		goto tr417
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
@@ -12528,7 +12547,7 @@ addrp=lastAddr(&msg.To)
 		case 104:
 			goto st434
 		}
-		goto tr416
+		goto tr417
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
@@ -12542,7 +12561,7 @@ addrp=lastAddr(&msg.To)
 		case 58:
 			goto st436
 		}
-		goto tr416
+		goto tr417
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
@@ -12578,10 +12597,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr623
+			goto tr624
 		}
 		goto st0
-tr623:
+tr624:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12589,7 +12608,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
-tr625:
+tr626:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12600,7 +12619,7 @@ tr625:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12595
+//line msg_parse.go:12614
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12612,7 +12631,7 @@ tr625:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr625
+			goto tr626
 		}
 		goto st0
 	st438:
@@ -12648,7 +12667,7 @@ tr625:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr623
+			goto tr624
 		}
 		goto st0
 	st441:
@@ -12662,7 +12681,7 @@ tr625:
 		case 121:
 			goto st442
 		}
-		goto tr416
+		goto tr417
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
@@ -12674,7 +12693,7 @@ tr625:
 		case 112:
 			goto st443
 		}
-		goto tr416
+		goto tr417
 	st443:
 		if p++; p == pe {
 			goto _test_eof443
@@ -12686,7 +12705,7 @@ tr625:
 		case 101:
 			goto st444
 		}
-		goto tr416
+		goto tr417
 	st444:
 		if p++; p == pe {
 			goto _test_eof444
@@ -12700,7 +12719,7 @@ tr625:
 		case 58:
 			goto st366
 		}
-		goto tr416
+		goto tr417
 	st445:
 		if p++; p == pe {
 			goto _test_eof445
@@ -12712,7 +12731,7 @@ tr625:
 		case 101:
 			goto st446
 		}
-		goto tr416
+		goto tr417
 	st446:
 		if p++; p == pe {
 			goto _test_eof446
@@ -12724,7 +12743,7 @@ tr625:
 		case 113:
 			goto st447
 		}
-		goto tr416
+		goto tr417
 	st447:
 		if p++; p == pe {
 			goto _test_eof447
@@ -12738,7 +12757,7 @@ tr625:
 		case 58:
 			goto st449
 		}
-		goto tr416
+		goto tr417
 	st448:
 		if p++; p == pe {
 			goto _test_eof448
@@ -12774,10 +12793,10 @@ tr625:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr637
 		}
 		goto st0
-tr636:
+tr637:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12788,7 +12807,7 @@ tr636:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12783
+//line msg_parse.go:12802
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12805,7 +12824,7 @@ tr636:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr637
 		}
 		goto st0
 	st451:
@@ -12826,13 +12845,13 @@ tr636:
 		case 32:
 			goto st451
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		case 525:
 			goto st453
 		}
@@ -12841,25 +12860,25 @@ tr636:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 42:
-				goto tr640
+				goto tr641
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
-tr640:
+tr641:
 //line sip.rl:80
 
 	mark = p
@@ -12870,7 +12889,7 @@ tr640:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12865
+//line msg_parse.go:12884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12888,7 +12907,7 @@ tr640:
 		case 126:
 			goto st452
 		case 269:
-			goto tr642
+			goto tr643
 		}
 		switch {
 		case _widec < 48:
@@ -12945,35 +12964,35 @@ tr640:
 		case 32:
 			goto st455
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 42:
-				goto tr640
+				goto tr641
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
 	st456:
@@ -13009,7 +13028,7 @@ tr640:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr636
+			goto tr637
 		}
 		goto st0
 	st459:
@@ -13023,7 +13042,7 @@ tr640:
 		case 97:
 			goto st460
 		}
-		goto tr416
+		goto tr417
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
@@ -13035,7 +13054,7 @@ tr640:
 		case 116:
 			goto st461
 		}
-		goto tr416
+		goto tr417
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
@@ -13047,7 +13066,7 @@ tr640:
 		case 101:
 			goto st462
 		}
-		goto tr416
+		goto tr417
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
@@ -13055,13 +13074,13 @@ tr640:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr650
+			goto tr651
 		case 32:
-			goto tr650
-		case 58:
 			goto tr651
+		case 58:
+			goto tr652
 		}
-		goto tr416
+		goto tr417
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
@@ -13069,11 +13088,11 @@ tr640:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr606
+			goto tr607
 		case 32:
-			goto tr606
-		case 58:
 			goto tr607
+		case 58:
+			goto tr608
 		case 82:
 			goto st464
 		case 86:
@@ -13087,7 +13106,7 @@ tr640:
 		case 120:
 			goto st477
 		}
-		goto tr416
+		goto tr417
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
@@ -13099,7 +13118,7 @@ tr640:
 		case 114:
 			goto st465
 		}
-		goto tr416
+		goto tr417
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
@@ -13111,7 +13130,7 @@ tr640:
 		case 111:
 			goto st466
 		}
-		goto tr416
+		goto tr417
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
@@ -13123,7 +13142,7 @@ tr640:
 		case 114:
 			goto st467
 		}
-		goto tr416
+		goto tr417
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
@@ -13132,7 +13151,7 @@ tr640:
 		if data[p] == 45 {
 			goto st468
 		}
-		goto tr416
+		goto tr417
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
@@ -13144,7 +13163,7 @@ tr640:
 		case 105:
 			goto st469
 		}
-		goto tr416
+		goto tr417
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
@@ -13156,7 +13175,7 @@ tr640:
 		case 110:
 			goto st470
 		}
-		goto tr416
+		goto tr417
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
@@ -13168,7 +13187,7 @@ tr640:
 		case 102:
 			goto st471
 		}
-		goto tr416
+		goto tr417
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
@@ -13180,7 +13199,7 @@ tr640:
 		case 111:
 			goto st472
 		}
-		goto tr416
+		goto tr417
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
@@ -13188,13 +13207,13 @@ tr640:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr663
+			goto tr664
 		case 32:
-			goto tr663
-		case 58:
 			goto tr664
+		case 58:
+			goto tr665
 		}
-		goto tr416
+		goto tr417
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
@@ -13206,7 +13225,7 @@ tr640:
 		case 101:
 			goto st474
 		}
-		goto tr416
+		goto tr417
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
@@ -13218,7 +13237,7 @@ tr640:
 		case 110:
 			goto st475
 		}
-		goto tr416
+		goto tr417
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
@@ -13230,7 +13249,7 @@ tr640:
 		case 116:
 			goto st476
 		}
-		goto tr416
+		goto tr417
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
@@ -13238,13 +13257,13 @@ tr640:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		}
-		goto tr416
+		goto tr417
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
@@ -13256,7 +13275,7 @@ tr640:
 		case 112:
 			goto st478
 		}
-		goto tr416
+		goto tr417
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
@@ -13268,7 +13287,7 @@ tr640:
 		case 105:
 			goto st479
 		}
-		goto tr416
+		goto tr417
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
@@ -13280,7 +13299,7 @@ tr640:
 		case 114:
 			goto st480
 		}
-		goto tr416
+		goto tr417
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
@@ -13292,7 +13311,7 @@ tr640:
 		case 101:
 			goto st481
 		}
-		goto tr416
+		goto tr417
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
@@ -13304,7 +13323,7 @@ tr640:
 		case 115:
 			goto st482
 		}
-		goto tr416
+		goto tr417
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
@@ -13318,7 +13337,7 @@ tr640:
 		case 58:
 			goto st484
 		}
-		goto tr416
+		goto tr417
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13354,10 +13373,10 @@ tr640:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
-tr677:
+tr678:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13365,7 +13384,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr679:
+tr680:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13376,7 +13395,7 @@ tr679:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13371
+//line msg_parse.go:13390
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13388,7 +13407,7 @@ tr679:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+			goto tr680
 		}
 		goto st0
 	st486:
@@ -13424,7 +13443,7 @@ tr679:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
 	st489:
@@ -13434,17 +13453,17 @@ tr679:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		case 82:
 			goto st490
 		case 114:
 			goto st490
 		}
-		goto tr416
+		goto tr417
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
@@ -13456,7 +13475,7 @@ tr679:
 		case 111:
 			goto st491
 		}
-		goto tr416
+		goto tr417
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
@@ -13468,7 +13487,7 @@ tr679:
 		case 109:
 			goto st492
 		}
-		goto tr416
+		goto tr417
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
@@ -13476,13 +13495,13 @@ tr679:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		}
-		goto tr416
+		goto tr417
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13500,7 +13519,7 @@ tr679:
 		case 110:
 			goto st494
 		}
-		goto tr416
+		goto tr417
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -13509,7 +13528,7 @@ tr679:
 		if data[p] == 45 {
 			goto st495
 		}
-		goto tr416
+		goto tr417
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
@@ -13521,7 +13540,7 @@ tr679:
 		case 114:
 			goto st496
 		}
-		goto tr416
+		goto tr417
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
@@ -13533,7 +13552,7 @@ tr679:
 		case 101:
 			goto st497
 		}
-		goto tr416
+		goto tr417
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
@@ -13545,7 +13564,7 @@ tr679:
 		case 112:
 			goto st498
 		}
-		goto tr416
+		goto tr417
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
@@ -13557,7 +13576,7 @@ tr679:
 		case 108:
 			goto st499
 		}
-		goto tr416
+		goto tr417
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
@@ -13569,7 +13588,7 @@ tr679:
 		case 121:
 			goto st500
 		}
-		goto tr416
+		goto tr417
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
@@ -13578,7 +13597,7 @@ tr679:
 		if data[p] == 45 {
 			goto st501
 		}
-		goto tr416
+		goto tr417
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
@@ -13590,7 +13609,7 @@ tr679:
 		case 116:
 			goto st502
 		}
-		goto tr416
+		goto tr417
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
@@ -13602,7 +13621,7 @@ tr679:
 		case 111:
 			goto st503
 		}
-		goto tr416
+		goto tr417
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
@@ -13610,13 +13629,13 @@ tr679:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr697
+			goto tr698
 		case 32:
-			goto tr697
-		case 58:
 			goto tr698
+		case 58:
+			goto tr699
 		}
-		goto tr416
+		goto tr417
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
@@ -13624,13 +13643,13 @@ tr679:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr699
+			goto tr700
 		case 32:
-			goto tr699
-		case 58:
 			goto tr700
+		case 58:
+			goto tr701
 		}
-		goto tr416
+		goto tr417
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
@@ -13638,11 +13657,11 @@ tr679:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		case 65:
 			goto st506
 		case 73:
@@ -13652,7 +13671,7 @@ tr679:
 		case 105:
 			goto st523
 		}
-		goto tr416
+		goto tr417
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
@@ -13664,7 +13683,7 @@ tr679:
 		case 120:
 			goto st507
 		}
-		goto tr416
+		goto tr417
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
@@ -13673,7 +13692,7 @@ tr679:
 		if data[p] == 45 {
 			goto st508
 		}
-		goto tr416
+		goto tr417
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
@@ -13685,7 +13704,7 @@ tr679:
 		case 102:
 			goto st509
 		}
-		goto tr416
+		goto tr417
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
@@ -13697,7 +13716,7 @@ tr679:
 		case 111:
 			goto st510
 		}
-		goto tr416
+		goto tr417
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
@@ -13709,7 +13728,7 @@ tr679:
 		case 114:
 			goto st511
 		}
-		goto tr416
+		goto tr417
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
@@ -13721,7 +13740,7 @@ tr679:
 		case 119:
 			goto st512
 		}
-		goto tr416
+		goto tr417
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
@@ -13733,7 +13752,7 @@ tr679:
 		case 97:
 			goto st513
 		}
-		goto tr416
+		goto tr417
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
@@ -13745,7 +13764,7 @@ tr679:
 		case 114:
 			goto st514
 		}
-		goto tr416
+		goto tr417
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
@@ -13757,7 +13776,7 @@ tr679:
 		case 100:
 			goto st515
 		}
-		goto tr416
+		goto tr417
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
@@ -13769,7 +13788,7 @@ tr679:
 		case 115:
 			goto st516
 		}
-		goto tr416
+		goto tr417
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
@@ -13783,7 +13802,7 @@ tr679:
 		case 58:
 			goto st518
 		}
-		goto tr416
+		goto tr417
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
@@ -13819,10 +13838,10 @@ tr679:
 			goto st520
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
-tr715:
+tr716:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
@@ -13830,7 +13849,7 @@ msg.MaxForwards=0
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st519
-tr717:
+tr718:
 //line sip.rl:244
 
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
@@ -13841,7 +13860,7 @@ tr717:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13836
+//line msg_parse.go:13855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13853,7 +13872,7 @@ tr717:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+			goto tr718
 		}
 		goto st0
 	st520:
@@ -13889,7 +13908,7 @@ tr717:
 			goto st522
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
 	st523:
@@ -13907,7 +13926,7 @@ tr717:
 		case 110:
 			goto st534
 		}
-		goto tr416
+		goto tr417
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
@@ -13919,7 +13938,7 @@ tr717:
 		case 101:
 			goto st525
 		}
-		goto tr416
+		goto tr417
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
@@ -13928,7 +13947,7 @@ tr717:
 		if data[p] == 45 {
 			goto st526
 		}
-		goto tr416
+		goto tr417
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
@@ -13940,7 +13959,7 @@ tr717:
 		case 118:
 			goto st527
 		}
-		goto tr416
+		goto tr417
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
@@ -13952,7 +13971,7 @@ tr717:
 		case 101:
 			goto st528
 		}
-		goto tr416
+		goto tr417
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
@@ -13964,7 +13983,7 @@ tr717:
 		case 114:
 			goto st529
 		}
-		goto tr416
+		goto tr417
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
@@ -13976,7 +13995,7 @@ tr717:
 		case 115:
 			goto st530
 		}
-		goto tr416
+		goto tr417
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
@@ -13988,7 +14007,7 @@ tr717:
 		case 105:
 			goto st531
 		}
-		goto tr416
+		goto tr417
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
@@ -14000,7 +14019,7 @@ tr717:
 		case 111:
 			goto st532
 		}
-		goto tr416
+		goto tr417
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
@@ -14012,7 +14031,7 @@ tr717:
 		case 110:
 			goto st533
 		}
-		goto tr416
+		goto tr417
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
@@ -14020,13 +14039,13 @@ tr717:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr731
+			goto tr732
 		case 32:
-			goto tr731
-		case 58:
 			goto tr732
+		case 58:
+			goto tr733
 		}
-		goto tr416
+		goto tr417
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
@@ -14035,7 +14054,7 @@ tr717:
 		if data[p] == 45 {
 			goto st535
 		}
-		goto tr416
+		goto tr417
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
@@ -14047,7 +14066,7 @@ tr717:
 		case 101:
 			goto st536
 		}
-		goto tr416
+		goto tr417
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
@@ -14059,7 +14078,7 @@ tr717:
 		case 120:
 			goto st537
 		}
-		goto tr416
+		goto tr417
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
@@ -14071,7 +14090,7 @@ tr717:
 		case 112:
 			goto st538
 		}
-		goto tr416
+		goto tr417
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
@@ -14083,7 +14102,7 @@ tr717:
 		case 105:
 			goto st539
 		}
-		goto tr416
+		goto tr417
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
@@ -14095,7 +14114,7 @@ tr717:
 		case 114:
 			goto st540
 		}
-		goto tr416
+		goto tr417
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
@@ -14107,7 +14126,7 @@ tr717:
 		case 101:
 			goto st541
 		}
-		goto tr416
+		goto tr417
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
@@ -14119,7 +14138,7 @@ tr717:
 		case 115:
 			goto st542
 		}
-		goto tr416
+		goto tr417
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
@@ -14133,7 +14152,7 @@ tr717:
 		case 58:
 			goto st544
 		}
-		goto tr416
+		goto tr417
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
@@ -14169,10 +14188,10 @@ tr717:
 			goto st546
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
-tr743:
+tr744:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
@@ -14180,7 +14199,7 @@ msg.MinExpires=0
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st545
-tr745:
+tr746:
 //line sip.rl:248
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
@@ -14191,7 +14210,7 @@ tr745:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14186
+//line msg_parse.go:14205
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14203,7 +14222,7 @@ tr745:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr745
+			goto tr746
 		}
 		goto st0
 	st546:
@@ -14239,7 +14258,7 @@ tr745:
 			goto st548
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
 	st549:
@@ -14249,17 +14268,17 @@ tr745:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		case 82:
 			goto st550
 		case 114:
 			goto st550
 		}
-		goto tr416
+		goto tr417
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
@@ -14271,7 +14290,7 @@ tr745:
 		case 103:
 			goto st551
 		}
-		goto tr416
+		goto tr417
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
@@ -14283,7 +14302,7 @@ tr745:
 		case 97:
 			goto st552
 		}
-		goto tr416
+		goto tr417
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
@@ -14295,7 +14314,7 @@ tr745:
 		case 110:
 			goto st553
 		}
-		goto tr416
+		goto tr417
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
@@ -14307,7 +14326,7 @@ tr745:
 		case 105:
 			goto st554
 		}
-		goto tr416
+		goto tr417
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
@@ -14319,7 +14338,7 @@ tr745:
 		case 122:
 			goto st555
 		}
-		goto tr416
+		goto tr417
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
@@ -14331,7 +14350,7 @@ tr745:
 		case 97:
 			goto st556
 		}
-		goto tr416
+		goto tr417
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
@@ -14343,7 +14362,7 @@ tr745:
 		case 116:
 			goto st557
 		}
-		goto tr416
+		goto tr417
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
@@ -14355,7 +14374,7 @@ tr745:
 		case 105:
 			goto st558
 		}
-		goto tr416
+		goto tr417
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
@@ -14367,7 +14386,7 @@ tr745:
 		case 111:
 			goto st559
 		}
-		goto tr416
+		goto tr417
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
@@ -14379,7 +14398,7 @@ tr745:
 		case 110:
 			goto st560
 		}
-		goto tr416
+		goto tr417
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
@@ -14387,13 +14406,13 @@ tr745:
 	st_case_560:
 		switch data[p] {
 		case 9:
-			goto tr759
+			goto tr760
 		case 32:
-			goto tr759
-		case 58:
 			goto tr760
+		case 58:
+			goto tr761
 		}
-		goto tr416
+		goto tr417
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
@@ -14407,7 +14426,7 @@ tr745:
 		case 114:
 			goto st580
 		}
-		goto tr416
+		goto tr417
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
@@ -14419,7 +14438,7 @@ tr745:
 		case 97:
 			goto st563
 		}
-		goto tr416
+		goto tr417
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
@@ -14431,7 +14450,7 @@ tr745:
 		case 115:
 			goto st564
 		}
-		goto tr416
+		goto tr417
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
@@ -14443,7 +14462,7 @@ tr745:
 		case 115:
 			goto st565
 		}
-		goto tr416
+		goto tr417
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
@@ -14455,7 +14474,7 @@ tr745:
 		case 101:
 			goto st566
 		}
-		goto tr416
+		goto tr417
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
@@ -14467,7 +14486,7 @@ tr745:
 		case 114:
 			goto st567
 		}
-		goto tr416
+		goto tr417
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
@@ -14479,7 +14498,7 @@ tr745:
 		case 116:
 			goto st568
 		}
-		goto tr416
+		goto tr417
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
@@ -14491,7 +14510,7 @@ tr745:
 		case 101:
 			goto st569
 		}
-		goto tr416
+		goto tr417
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
@@ -14503,7 +14522,7 @@ tr745:
 		case 100:
 			goto st570
 		}
-		goto tr416
+		goto tr417
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
@@ -14512,7 +14531,7 @@ tr745:
 		if data[p] == 45 {
 			goto st571
 		}
-		goto tr416
+		goto tr417
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
@@ -14524,7 +14543,7 @@ tr745:
 		case 105:
 			goto st572
 		}
-		goto tr416
+		goto tr417
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
@@ -14536,7 +14555,7 @@ tr745:
 		case 100:
 			goto st573
 		}
-		goto tr416
+		goto tr417
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
@@ -14548,7 +14567,7 @@ tr745:
 		case 101:
 			goto st574
 		}
-		goto tr416
+		goto tr417
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
@@ -14560,7 +14579,7 @@ tr745:
 		case 110:
 			goto st575
 		}
-		goto tr416
+		goto tr417
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
@@ -14572,7 +14591,7 @@ tr745:
 		case 116:
 			goto st576
 		}
-		goto tr416
+		goto tr417
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
@@ -14584,7 +14603,7 @@ tr745:
 		case 105:
 			goto st577
 		}
-		goto tr416
+		goto tr417
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
@@ -14596,7 +14615,7 @@ tr745:
 		case 116:
 			goto st578
 		}
-		goto tr416
+		goto tr417
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
@@ -14608,7 +14627,7 @@ tr745:
 		case 121:
 			goto st579
 		}
-		goto tr416
+		goto tr417
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
@@ -14616,13 +14635,13 @@ tr745:
 	st_case_579:
 		switch data[p] {
 		case 9:
-			goto tr780
+			goto tr781
 		case 32:
-			goto tr780
-		case 58:
 			goto tr781
+		case 58:
+			goto tr782
 		}
-		goto tr416
+		goto tr417
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
@@ -14638,7 +14657,7 @@ tr745:
 		case 111:
 			goto st587
 		}
-		goto tr416
+		goto tr417
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
@@ -14650,7 +14669,7 @@ tr745:
 		case 111:
 			goto st582
 		}
-		goto tr416
+		goto tr417
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
@@ -14662,7 +14681,7 @@ tr745:
 		case 114:
 			goto st583
 		}
-		goto tr416
+		goto tr417
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
@@ -14674,7 +14693,7 @@ tr745:
 		case 105:
 			goto st584
 		}
-		goto tr416
+		goto tr417
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
@@ -14686,7 +14705,7 @@ tr745:
 		case 116:
 			goto st585
 		}
-		goto tr416
+		goto tr417
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
@@ -14698,7 +14717,7 @@ tr745:
 		case 121:
 			goto st586
 		}
-		goto tr416
+		goto tr417
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
@@ -14706,13 +14725,13 @@ tr745:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr789
+			goto tr790
 		case 32:
-			goto tr789
-		case 58:
 			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr416
+		goto tr417
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
@@ -14724,7 +14743,7 @@ tr745:
 		case 120:
 			goto st588
 		}
-		goto tr416
+		goto tr417
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
@@ -14736,7 +14755,7 @@ tr745:
 		case 121:
 			goto st589
 		}
-		goto tr416
+		goto tr417
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
@@ -14745,7 +14764,7 @@ tr745:
 		if data[p] == 45 {
 			goto st590
 		}
-		goto tr416
+		goto tr417
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
@@ -14761,7 +14780,7 @@ tr745:
 		case 114:
 			goto st612
 		}
-		goto tr416
+		goto tr417
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
@@ -14773,7 +14792,7 @@ tr745:
 		case 117:
 			goto st592
 		}
-		goto tr416
+		goto tr417
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
@@ -14785,7 +14804,7 @@ tr745:
 		case 116:
 			goto st593
 		}
-		goto tr416
+		goto tr417
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
@@ -14797,7 +14816,7 @@ tr745:
 		case 104:
 			goto st594
 		}
-		goto tr416
+		goto tr417
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
@@ -14813,7 +14832,7 @@ tr745:
 		case 111:
 			goto st603
 		}
-		goto tr416
+		goto tr417
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
@@ -14825,7 +14844,7 @@ tr745:
 		case 110:
 			goto st596
 		}
-		goto tr416
+		goto tr417
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
@@ -14837,7 +14856,7 @@ tr745:
 		case 116:
 			goto st597
 		}
-		goto tr416
+		goto tr417
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
@@ -14849,7 +14868,7 @@ tr745:
 		case 105:
 			goto st598
 		}
-		goto tr416
+		goto tr417
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
@@ -14861,7 +14880,7 @@ tr745:
 		case 99:
 			goto st599
 		}
-		goto tr416
+		goto tr417
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
@@ -14873,7 +14892,7 @@ tr745:
 		case 97:
 			goto st600
 		}
-		goto tr416
+		goto tr417
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
@@ -14885,7 +14904,7 @@ tr745:
 		case 116:
 			goto st601
 		}
-		goto tr416
+		goto tr417
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
@@ -14897,7 +14916,7 @@ tr745:
 		case 101:
 			goto st602
 		}
-		goto tr416
+		goto tr417
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
@@ -14905,13 +14924,13 @@ tr745:
 	st_case_602:
 		switch data[p] {
 		case 9:
-			goto tr808
+			goto tr809
 		case 32:
-			goto tr808
-		case 58:
 			goto tr809
+		case 58:
+			goto tr810
 		}
-		goto tr416
+		goto tr417
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
@@ -14923,7 +14942,7 @@ tr745:
 		case 114:
 			goto st604
 		}
-		goto tr416
+		goto tr417
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
@@ -14935,7 +14954,7 @@ tr745:
 		case 105:
 			goto st605
 		}
-		goto tr416
+		goto tr417
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
@@ -14947,7 +14966,7 @@ tr745:
 		case 122:
 			goto st606
 		}
-		goto tr416
+		goto tr417
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
@@ -14959,7 +14978,7 @@ tr745:
 		case 97:
 			goto st607
 		}
-		goto tr416
+		goto tr417
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
@@ -14971,7 +14990,7 @@ tr745:
 		case 116:
 			goto st608
 		}
-		goto tr416
+		goto tr417
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
@@ -14983,7 +15002,7 @@ tr745:
 		case 105:
 			goto st609
 		}
-		goto tr416
+		goto tr417
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
@@ -14995,7 +15014,7 @@ tr745:
 		case 111:
 			goto st610
 		}
-		goto tr416
+		goto tr417
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
@@ -15007,7 +15026,7 @@ tr745:
 		case 110:
 			goto st611
 		}
-		goto tr416
+		goto tr417
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
@@ -15015,13 +15034,13 @@ tr745:
 	st_case_611:
 		switch data[p] {
 		case 9:
-			goto tr818
+			goto tr819
 		case 32:
-			goto tr818
-		case 58:
 			goto tr819
+		case 58:
+			goto tr820
 		}
-		goto tr416
+		goto tr417
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
@@ -15033,7 +15052,7 @@ tr745:
 		case 101:
 			goto st613
 		}
-		goto tr416
+		goto tr417
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
@@ -15045,7 +15064,7 @@ tr745:
 		case 113:
 			goto st614
 		}
-		goto tr416
+		goto tr417
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
@@ -15057,7 +15076,7 @@ tr745:
 		case 117:
 			goto st615
 		}
-		goto tr416
+		goto tr417
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
@@ -15069,7 +15088,7 @@ tr745:
 		case 105:
 			goto st616
 		}
-		goto tr416
+		goto tr417
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
@@ -15081,7 +15100,7 @@ tr745:
 		case 114:
 			goto st617
 		}
-		goto tr416
+		goto tr417
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
@@ -15093,7 +15112,7 @@ tr745:
 		case 101:
 			goto st618
 		}
-		goto tr416
+		goto tr417
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
@@ -15101,13 +15120,13 @@ tr745:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr826
+			goto tr827
 		case 32:
-			goto tr826
-		case 58:
 			goto tr827
+		case 58:
+			goto tr828
 		}
-		goto tr416
+		goto tr417
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
@@ -15115,11 +15134,11 @@ tr745:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		case 69:
 			goto st620
 		case 79:
@@ -15129,7 +15148,7 @@ tr745:
 		case 111:
 			goto st675
 		}
-		goto tr416
+		goto tr417
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
@@ -15161,7 +15180,7 @@ tr745:
 		case 116:
 			goto st666
 		}
-		goto tr416
+		goto tr417
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
@@ -15173,7 +15192,7 @@ tr745:
 		case 111:
 			goto st622
 		}
-		goto tr416
+		goto tr417
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
@@ -15185,7 +15204,7 @@ tr745:
 		case 114:
 			goto st623
 		}
-		goto tr416
+		goto tr417
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
@@ -15197,7 +15216,7 @@ tr745:
 		case 100:
 			goto st624
 		}
-		goto tr416
+		goto tr417
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
@@ -15206,7 +15225,7 @@ tr745:
 		if data[p] == 45 {
 			goto st625
 		}
-		goto tr416
+		goto tr417
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
@@ -15218,7 +15237,7 @@ tr745:
 		case 114:
 			goto st626
 		}
-		goto tr416
+		goto tr417
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
@@ -15230,7 +15249,7 @@ tr745:
 		case 111:
 			goto st627
 		}
-		goto tr416
+		goto tr417
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
@@ -15242,7 +15261,7 @@ tr745:
 		case 117:
 			goto st628
 		}
-		goto tr416
+		goto tr417
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
@@ -15254,7 +15273,7 @@ tr745:
 		case 116:
 			goto st629
 		}
-		goto tr416
+		goto tr417
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
@@ -15266,7 +15285,7 @@ tr745:
 		case 101:
 			goto st630
 		}
-		goto tr416
+		goto tr417
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
@@ -15274,13 +15293,13 @@ tr745:
 	st_case_630:
 		switch data[p] {
 		case 9:
-			goto tr847
+			goto tr848
 		case 32:
-			goto tr847
-		case 58:
 			goto tr848
+		case 58:
+			goto tr849
 		}
-		goto tr416
+		goto tr417
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
@@ -15292,7 +15311,7 @@ tr745:
 		case 101:
 			goto st632
 		}
-		goto tr416
+		goto tr417
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
@@ -15304,7 +15323,7 @@ tr745:
 		case 114:
 			goto st633
 		}
-		goto tr416
+		goto tr417
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
@@ -15318,7 +15337,7 @@ tr745:
 		case 114:
 			goto st637
 		}
-		goto tr416
+		goto tr417
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
@@ -15330,7 +15349,7 @@ tr745:
 		case 116:
 			goto st635
 		}
-		goto tr416
+		goto tr417
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
@@ -15342,7 +15361,7 @@ tr745:
 		case 111:
 			goto st636
 		}
-		goto tr416
+		goto tr417
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
@@ -15350,13 +15369,13 @@ tr745:
 	st_case_636:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		}
-		goto tr416
+		goto tr417
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
@@ -15368,7 +15387,7 @@ tr745:
 		case 101:
 			goto st638
 		}
-		goto tr416
+		goto tr417
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
@@ -15380,7 +15399,7 @@ tr745:
 		case 100:
 			goto st639
 		}
-		goto tr416
+		goto tr417
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
@@ -15389,7 +15408,7 @@ tr745:
 		if data[p] == 45 {
 			goto st640
 		}
-		goto tr416
+		goto tr417
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
@@ -15401,7 +15420,7 @@ tr745:
 		case 98:
 			goto st641
 		}
-		goto tr416
+		goto tr417
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
@@ -15413,7 +15432,7 @@ tr745:
 		case 121:
 			goto st363
 		}
-		goto tr416
+		goto tr417
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
@@ -15425,7 +15444,7 @@ tr745:
 		case 111:
 			goto st643
 		}
-		goto tr416
+		goto tr417
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
@@ -15437,7 +15456,7 @@ tr745:
 		case 116:
 			goto st644
 		}
-		goto tr416
+		goto tr417
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
@@ -15449,7 +15468,7 @@ tr745:
 		case 101:
 			goto st645
 		}
-		goto tr416
+		goto tr417
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
@@ -15458,7 +15477,7 @@ tr745:
 		if data[p] == 45 {
 			goto st646
 		}
-		goto tr416
+		goto tr417
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
@@ -15470,7 +15489,7 @@ tr745:
 		case 112:
 			goto st647
 		}
-		goto tr416
+		goto tr417
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
@@ -15482,7 +15501,7 @@ tr745:
 		case 97:
 			goto st648
 		}
-		goto tr416
+		goto tr417
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
@@ -15494,7 +15513,7 @@ tr745:
 		case 114:
 			goto st649
 		}
-		goto tr416
+		goto tr417
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
@@ -15506,7 +15525,7 @@ tr745:
 		case 116:
 			goto st650
 		}
-		goto tr416
+		goto tr417
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
@@ -15518,7 +15537,7 @@ tr745:
 		case 121:
 			goto st651
 		}
-		goto tr416
+		goto tr417
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
@@ -15527,7 +15546,7 @@ tr745:
 		if data[p] == 45 {
 			goto st652
 		}
-		goto tr416
+		goto tr417
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
@@ -15539,7 +15558,7 @@ tr745:
 		case 105:
 			goto st653
 		}
-		goto tr416
+		goto tr417
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
@@ -15551,7 +15570,7 @@ tr745:
 		case 100:
 			goto st654
 		}
-		goto tr416
+		goto tr417
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
@@ -15559,13 +15578,13 @@ tr745:
 	st_case_654:
 		switch data[p] {
 		case 9:
-			goto tr871
+			goto tr872
 		case 32:
-			goto tr871
-		case 58:
 			goto tr872
+		case 58:
+			goto tr873
 		}
-		goto tr416
+		goto tr417
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
@@ -15577,7 +15596,7 @@ tr745:
 		case 108:
 			goto st656
 		}
-		goto tr416
+		goto tr417
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
@@ -15589,7 +15608,7 @@ tr745:
 		case 121:
 			goto st657
 		}
-		goto tr416
+		goto tr417
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
@@ -15598,7 +15617,7 @@ tr745:
 		if data[p] == 45 {
 			goto st658
 		}
-		goto tr416
+		goto tr417
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
@@ -15610,7 +15629,7 @@ tr745:
 		case 116:
 			goto st659
 		}
-		goto tr416
+		goto tr417
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
@@ -15622,7 +15641,7 @@ tr745:
 		case 111:
 			goto st660
 		}
-		goto tr416
+		goto tr417
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
@@ -15630,13 +15649,13 @@ tr745:
 	st_case_660:
 		switch data[p] {
 		case 9:
-			goto tr878
+			goto tr879
 		case 32:
-			goto tr878
-		case 58:
 			goto tr879
+		case 58:
+			goto tr880
 		}
-		goto tr416
+		goto tr417
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
@@ -15648,7 +15667,7 @@ tr745:
 		case 117:
 			goto st662
 		}
-		goto tr416
+		goto tr417
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
@@ -15660,7 +15679,7 @@ tr745:
 		case 105:
 			goto st663
 		}
-		goto tr416
+		goto tr417
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
@@ -15672,7 +15691,7 @@ tr745:
 		case 114:
 			goto st664
 		}
-		goto tr416
+		goto tr417
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
@@ -15684,7 +15703,7 @@ tr745:
 		case 101:
 			goto st665
 		}
-		goto tr416
+		goto tr417
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
@@ -15692,13 +15711,13 @@ tr745:
 	st_case_665:
 		switch data[p] {
 		case 9:
-			goto tr884
+			goto tr885
 		case 32:
-			goto tr884
-		case 58:
 			goto tr885
+		case 58:
+			goto tr886
 		}
-		goto tr416
+		goto tr417
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
@@ -15710,7 +15729,7 @@ tr745:
 		case 114:
 			goto st667
 		}
-		goto tr416
+		goto tr417
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
@@ -15722,7 +15741,7 @@ tr745:
 		case 121:
 			goto st668
 		}
-		goto tr416
+		goto tr417
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
@@ -15731,7 +15750,7 @@ tr745:
 		if data[p] == 45 {
 			goto st669
 		}
-		goto tr416
+		goto tr417
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
@@ -15743,7 +15762,7 @@ tr745:
 		case 97:
 			goto st670
 		}
-		goto tr416
+		goto tr417
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
@@ -15755,7 +15774,7 @@ tr745:
 		case 102:
 			goto st671
 		}
-		goto tr416
+		goto tr417
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
@@ -15767,7 +15786,7 @@ tr745:
 		case 116:
 			goto st672
 		}
-		goto tr416
+		goto tr417
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
@@ -15779,7 +15798,7 @@ tr745:
 		case 101:
 			goto st673
 		}
-		goto tr416
+		goto tr417
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15791,7 +15810,7 @@ tr745:
 		case 114:
 			goto st674
 		}
-		goto tr416
+		goto tr417
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15799,13 +15818,13 @@ tr745:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr894
+			goto tr895
 		case 32:
-			goto tr894
-		case 58:
 			goto tr895
+		case 58:
+			goto tr896
 		}
-		goto tr416
+		goto tr417
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
@@ -15817,7 +15836,7 @@ tr745:
 		case 117:
 			goto st676
 		}
-		goto tr416
+		goto tr417
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
@@ -15829,7 +15848,7 @@ tr745:
 		case 116:
 			goto st677
 		}
-		goto tr416
+		goto tr417
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
@@ -15841,7 +15860,7 @@ tr745:
 		case 101:
 			goto st678
 		}
-		goto tr416
+		goto tr417
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
@@ -15849,13 +15868,13 @@ tr745:
 	st_case_678:
 		switch data[p] {
 		case 9:
-			goto tr899
+			goto tr900
 		case 32:
-			goto tr899
-		case 58:
 			goto tr900
+		case 58:
+			goto tr901
 		}
-		goto tr416
+		goto tr417
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
@@ -15863,11 +15882,11 @@ tr745:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		case 69:
 			goto st680
 		case 85:
@@ -15877,7 +15896,7 @@ tr745:
 		case 117:
 			goto st685
 		}
-		goto tr416
+		goto tr417
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
@@ -15889,7 +15908,7 @@ tr745:
 		case 114:
 			goto st681
 		}
-		goto tr416
+		goto tr417
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
@@ -15901,7 +15920,7 @@ tr745:
 		case 118:
 			goto st682
 		}
-		goto tr416
+		goto tr417
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
@@ -15913,7 +15932,7 @@ tr745:
 		case 101:
 			goto st683
 		}
-		goto tr416
+		goto tr417
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
@@ -15925,7 +15944,7 @@ tr745:
 		case 114:
 			goto st684
 		}
-		goto tr416
+		goto tr417
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
@@ -15933,13 +15952,13 @@ tr745:
 	st_case_684:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		}
-		goto tr416
+		goto tr417
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
@@ -15955,7 +15974,7 @@ tr745:
 		case 112:
 			goto st691
 		}
-		goto tr416
+		goto tr417
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
@@ -15967,7 +15986,7 @@ tr745:
 		case 106:
 			goto st687
 		}
-		goto tr416
+		goto tr417
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
@@ -15979,7 +15998,7 @@ tr745:
 		case 101:
 			goto st688
 		}
-		goto tr416
+		goto tr417
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
@@ -15991,7 +16010,7 @@ tr745:
 		case 99:
 			goto st689
 		}
-		goto tr416
+		goto tr417
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
@@ -16003,7 +16022,7 @@ tr745:
 		case 116:
 			goto st690
 		}
-		goto tr416
+		goto tr417
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
@@ -16011,13 +16030,13 @@ tr745:
 	st_case_690:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		}
-		goto tr416
+		goto tr417
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
@@ -16029,7 +16048,7 @@ tr745:
 		case 112:
 			goto st692
 		}
-		goto tr416
+		goto tr417
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
@@ -16041,7 +16060,7 @@ tr745:
 		case 111:
 			goto st693
 		}
-		goto tr416
+		goto tr417
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
@@ -16053,7 +16072,7 @@ tr745:
 		case 114:
 			goto st694
 		}
-		goto tr416
+		goto tr417
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
@@ -16065,7 +16084,7 @@ tr745:
 		case 116:
 			goto st695
 		}
-		goto tr416
+		goto tr417
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
@@ -16077,7 +16096,7 @@ tr745:
 		case 101:
 			goto st696
 		}
-		goto tr416
+		goto tr417
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
@@ -16089,7 +16108,7 @@ tr745:
 		case 100:
 			goto st504
 		}
-		goto tr416
+		goto tr417
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
@@ -16097,11 +16116,11 @@ tr745:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		case 73:
 			goto st698
 		case 79:
@@ -16111,7 +16130,7 @@ tr745:
 		case 111:
 			goto st706
 		}
-		goto tr416
+		goto tr417
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
@@ -16123,7 +16142,7 @@ tr745:
 		case 109:
 			goto st699
 		}
-		goto tr416
+		goto tr417
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
@@ -16135,7 +16154,7 @@ tr745:
 		case 101:
 			goto st700
 		}
-		goto tr416
+		goto tr417
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
@@ -16147,7 +16166,7 @@ tr745:
 		case 115:
 			goto st701
 		}
-		goto tr416
+		goto tr417
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
@@ -16159,7 +16178,7 @@ tr745:
 		case 116:
 			goto st702
 		}
-		goto tr416
+		goto tr417
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
@@ -16171,7 +16190,7 @@ tr745:
 		case 97:
 			goto st703
 		}
-		goto tr416
+		goto tr417
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
@@ -16183,7 +16202,7 @@ tr745:
 		case 109:
 			goto st704
 		}
-		goto tr416
+		goto tr417
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
@@ -16195,7 +16214,7 @@ tr745:
 		case 112:
 			goto st705
 		}
-		goto tr416
+		goto tr417
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
@@ -16203,13 +16222,13 @@ tr745:
 	st_case_705:
 		switch data[p] {
 		case 9:
-			goto tr933
+			goto tr934
 		case 32:
-			goto tr933
-		case 58:
 			goto tr934
+		case 58:
+			goto tr935
 		}
-		goto tr416
+		goto tr417
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
@@ -16217,13 +16236,13 @@ tr745:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		}
-		goto tr416
+		goto tr417
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16231,11 +16250,11 @@ tr745:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr502
+			goto tr503
 		case 32:
-			goto tr502
-		case 58:
 			goto tr503
+		case 58:
+			goto tr504
 		case 78:
 			goto st708
 		case 83:
@@ -16245,7 +16264,7 @@ tr745:
 		case 115:
 			goto st718
 		}
-		goto tr416
+		goto tr417
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
@@ -16257,7 +16276,7 @@ tr745:
 		case 115:
 			goto st709
 		}
-		goto tr416
+		goto tr417
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
@@ -16269,7 +16288,7 @@ tr745:
 		case 117:
 			goto st710
 		}
-		goto tr416
+		goto tr417
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
@@ -16281,7 +16300,7 @@ tr745:
 		case 112:
 			goto st711
 		}
-		goto tr416
+		goto tr417
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
@@ -16293,7 +16312,7 @@ tr745:
 		case 112:
 			goto st712
 		}
-		goto tr416
+		goto tr417
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
@@ -16305,7 +16324,7 @@ tr745:
 		case 111:
 			goto st713
 		}
-		goto tr416
+		goto tr417
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
@@ -16317,7 +16336,7 @@ tr745:
 		case 114:
 			goto st714
 		}
-		goto tr416
+		goto tr417
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
@@ -16329,7 +16348,7 @@ tr745:
 		case 116:
 			goto st715
 		}
-		goto tr416
+		goto tr417
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
@@ -16341,7 +16360,7 @@ tr745:
 		case 101:
 			goto st716
 		}
-		goto tr416
+		goto tr417
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
@@ -16353,7 +16372,7 @@ tr745:
 		case 100:
 			goto st717
 		}
-		goto tr416
+		goto tr417
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -16361,13 +16380,13 @@ tr745:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr946
+			goto tr947
 		case 32:
-			goto tr946
-		case 58:
 			goto tr947
+		case 58:
+			goto tr948
 		}
-		goto tr416
+		goto tr417
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -16379,7 +16398,7 @@ tr745:
 		case 101:
 			goto st719
 		}
-		goto tr416
+		goto tr417
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
@@ -16391,7 +16410,7 @@ tr745:
 		case 114:
 			goto st720
 		}
-		goto tr416
+		goto tr417
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
@@ -16400,7 +16419,7 @@ tr745:
 		if data[p] == 45 {
 			goto st721
 		}
-		goto tr416
+		goto tr417
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
@@ -16412,7 +16431,7 @@ tr745:
 		case 97:
 			goto st722
 		}
-		goto tr416
+		goto tr417
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
@@ -16424,7 +16443,7 @@ tr745:
 		case 103:
 			goto st723
 		}
-		goto tr416
+		goto tr417
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
@@ -16436,7 +16455,7 @@ tr745:
 		case 101:
 			goto st724
 		}
-		goto tr416
+		goto tr417
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
@@ -16448,7 +16467,7 @@ tr745:
 		case 110:
 			goto st725
 		}
-		goto tr416
+		goto tr417
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
@@ -16460,7 +16479,7 @@ tr745:
 		case 116:
 			goto st726
 		}
-		goto tr416
+		goto tr417
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
@@ -16468,13 +16487,13 @@ tr745:
 	st_case_726:
 		switch data[p] {
 		case 9:
-			goto tr956
+			goto tr957
 		case 32:
-			goto tr956
-		case 58:
 			goto tr957
+		case 58:
+			goto tr958
 		}
-		goto tr416
+		goto tr417
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
@@ -16492,7 +16511,7 @@ tr745:
 		case 105:
 			goto st733
 		}
-		goto tr416
+		goto tr417
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
@@ -16525,17 +16544,17 @@ tr745:
 		case 32:
 			goto st729
 		case 269:
-			goto tr961
+			goto tr962
 		case 525:
 			goto st730
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr961
+				goto tr962
 			}
 		default:
-			goto tr961
+			goto tr962
 		}
 		goto st0
 	st730:
@@ -16570,7 +16589,7 @@ tr745:
 		case 32:
 			goto st732
 		}
-		goto tr961
+		goto tr962
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
@@ -16582,7 +16601,7 @@ tr745:
 		case 97:
 			goto st734
 		}
-		goto tr416
+		goto tr417
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
@@ -16596,7 +16615,7 @@ tr745:
 		case 58:
 			goto st729
 		}
-		goto tr416
+		goto tr417
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
@@ -16612,7 +16631,7 @@ tr745:
 		case 119:
 			goto st742
 		}
-		goto tr416
+		goto tr417
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
@@ -16624,7 +16643,7 @@ tr745:
 		case 114:
 			goto st737
 		}
-		goto tr416
+		goto tr417
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
@@ -16636,7 +16655,7 @@ tr745:
 		case 110:
 			goto st738
 		}
-		goto tr416
+		goto tr417
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
@@ -16648,7 +16667,7 @@ tr745:
 		case 105:
 			goto st739
 		}
-		goto tr416
+		goto tr417
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
@@ -16660,7 +16679,7 @@ tr745:
 		case 110:
 			goto st740
 		}
-		goto tr416
+		goto tr417
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
@@ -16672,7 +16691,7 @@ tr745:
 		case 103:
 			goto st741
 		}
-		goto tr416
+		goto tr417
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
@@ -16680,13 +16699,13 @@ tr745:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto tr973
+			goto tr974
 		case 32:
-			goto tr973
-		case 58:
 			goto tr974
+		case 58:
+			goto tr975
 		}
-		goto tr416
+		goto tr417
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
@@ -16698,7 +16717,7 @@ tr745:
 		case 119:
 			goto st743
 		}
-		goto tr416
+		goto tr417
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
@@ -16707,7 +16726,7 @@ tr745:
 		if data[p] == 45 {
 			goto st744
 		}
-		goto tr416
+		goto tr417
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
@@ -16719,7 +16738,7 @@ tr745:
 		case 97:
 			goto st745
 		}
-		goto tr416
+		goto tr417
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
@@ -16731,7 +16750,7 @@ tr745:
 		case 117:
 			goto st746
 		}
-		goto tr416
+		goto tr417
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
@@ -16743,7 +16762,7 @@ tr745:
 		case 116:
 			goto st747
 		}
-		goto tr416
+		goto tr417
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
@@ -16755,7 +16774,7 @@ tr745:
 		case 104:
 			goto st748
 		}
-		goto tr416
+		goto tr417
 	st748:
 		if p++; p == pe {
 			goto _test_eof748
@@ -16767,7 +16786,7 @@ tr745:
 		case 101:
 			goto st749
 		}
-		goto tr416
+		goto tr417
 	st749:
 		if p++; p == pe {
 			goto _test_eof749
@@ -16779,7 +16798,7 @@ tr745:
 		case 110:
 			goto st750
 		}
-		goto tr416
+		goto tr417
 	st750:
 		if p++; p == pe {
 			goto _test_eof750
@@ -16791,7 +16810,7 @@ tr745:
 		case 116:
 			goto st751
 		}
-		goto tr416
+		goto tr417
 	st751:
 		if p++; p == pe {
 			goto _test_eof751
@@ -16803,7 +16822,7 @@ tr745:
 		case 105:
 			goto st752
 		}
-		goto tr416
+		goto tr417
 	st752:
 		if p++; p == pe {
 			goto _test_eof752
@@ -16815,7 +16834,7 @@ tr745:
 		case 99:
 			goto st753
 		}
-		goto tr416
+		goto tr417
 	st753:
 		if p++; p == pe {
 			goto _test_eof753
@@ -16827,7 +16846,7 @@ tr745:
 		case 97:
 			goto st754
 		}
-		goto tr416
+		goto tr417
 	st754:
 		if p++; p == pe {
 			goto _test_eof754
@@ -16839,7 +16858,7 @@ tr745:
 		case 116:
 			goto st755
 		}
-		goto tr416
+		goto tr417
 	st755:
 		if p++; p == pe {
 			goto _test_eof755
@@ -16851,7 +16870,7 @@ tr745:
 		case 101:
 			goto st756
 		}
-		goto tr416
+		goto tr417
 	st756:
 		if p++; p == pe {
 			goto _test_eof756
@@ -16859,20 +16878,20 @@ tr745:
 	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr989
+			goto tr990
 		case 32:
-			goto tr989
-		case 58:
 			goto tr990
+		case 58:
+			goto tr991
 		}
-		goto tr416
+		goto tr417
 	st757:
 		if p++; p == pe {
 			goto _test_eof757
 		}
 	st_case_757:
 		if data[p] == 10 {
-			goto tr991
+			goto tr992
 		}
 		goto st0
 	st_out:
@@ -17660,7 +17679,7 @@ tr745:
 
 	{goto st273 }
 
-//line msg_parse.go:17655
+//line msg_parse.go:17674
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8b88d8e..138625e 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -547,8 +547,8 @@ header  := CRLF @break
 Method          = token >mark %Method;
 SIPVersionNo    = digit+ @VersionMajor "." digit+ @VersionMinor;
 RequestURI      = ^SP+ >mark %RequestURI;
-StatusCode      = ( digit @StatusCode ) {3};
-ReasonPhrase    = reasonmc+ >start %ReasonPhrase;
+StatusCode      = ( "1".."9" @StatusCode ) ( digit @StatusCode ) {2};
+ReasonPhrase    = reasonmc* >start %ReasonPhrase;
 SIPVersion      = "SIP/" SIPVersionNo;
 Request         = Method SP RequestURI SP SIPVersion CRLF @goto_header;
 Response        = SIPVersion SP StatusCode SP ReasonPhrase CRLF @goto_header;
-- 
2.43.0


From 2a893e2bd3d288f6270a63cf7fc938436d79a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 03/50] fix: refuse numbers too large for their field instead
 of wrapping

A repeated CSeq header now replaces the number like other headers do,
instead of appending its digits.
---
 sip/msg_parse.go | 1268 ++++++++++++++++++++++++----------------------
 sip/msg_parse.rl |    2 +
 sip/sip.rl       |   29 +-
 sip/uri_parse.go |  412 +++++++--------
 sip/uri_parse.rl |    6 +-
 sip/util.go      |   17 +
 6 files changed, 902 insertions(+), 832 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 417f022..de40e8d 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -21,14 +21,15 @@ import (
 	"errors"
 	"fmt"
 	"github.com/jart/gosip/sdp"
+	"math"
 )
 
 
-//line msg_parse.rl:25
-
 //line msg_parse.rl:26
 
-//line msg_parse.go:28
+//line msg_parse.rl:27
+
+//line msg_parse.go:29
 const msg_start int = 1
 const msg_first_final int = 758
 const msg_error int = 0
@@ -46,7 +47,7 @@ const msg_en_header int = 280
 const msg_en_main int = 1
 
 
-//line msg_parse.rl:27
+//line msg_parse.rl:28
 
 // ParseMsg turns a SIP message byte slice into a data structure.
 func ParseMsg(data []byte) (msg *Msg, err error) {
@@ -63,6 +64,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	amt := 0
 	mark := 0
 	clen := 0
+	num := 0
 	ctype := ""
 	var name string
 	var hex byte
@@ -72,16 +74,16 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	var addr *Addr
 
 	
-//line msg_parse.rl:52
+//line msg_parse.rl:54
 	
-//line msg_parse.go:71
+//line msg_parse.go:73
 	{
 	cs = msg_start
 	}
 
-//line msg_parse.rl:53
+//line msg_parse.rl:55
 	
-//line msg_parse.go:76
+//line msg_parse.go:78
 	{
 	var _widec int16
 	if p == pe {
@@ -1677,14 +1679,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 		goto st0
 tr417:
-//line sip.rl:171
+//line sip.rl:177
 
 	p--
 
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1679
+//line msg_parse.go:1681
 st_case_0:
 	st0:
 		cs = 0
@@ -1700,7 +1702,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1695
+//line msg_parse.go:1697
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1747,7 +1749,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1742
+//line msg_parse.go:1744
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1763,13 +1765,13 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1758
+//line msg_parse.go:1760
 		if data[p] == 32 {
 			goto tr7
 		}
 		goto st4
 tr7:
-//line sip.rl:124
+//line sip.rl:128
 
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -1780,7 +1782,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1775
+//line msg_parse.go:1777
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1824,7 +1826,9 @@ tr7:
 tr12:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	num, err = addDigit(int(msg.VersionMajor), data[p], math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(num)
 
 	goto st10
 	st10:
@@ -1832,7 +1836,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1827
+//line msg_parse.go:1831
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1850,9 +1854,11 @@ tr12:
 		}
 		goto st0
 tr14:
-//line sip.rl:120
+//line sip.rl:122
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	num, err = addDigit(int(msg.VersionMinor), data[p], math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(num)
 
 	goto st12
 	st12:
@@ -1860,7 +1866,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1855
+//line msg_parse.go:1861
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1880,13 +1886,13 @@ tr35:
 
 	amt = 0
 
-//line sip.rl:133
+//line sip.rl:137
 
 	msg.Phrase = string(buf[0:amt])
 
 	goto st13
 tr43:
-//line sip.rl:133
+//line sip.rl:137
 
 	msg.Phrase = string(buf[0:amt])
 
@@ -1896,13 +1902,13 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1891
+//line msg_parse.go:1897
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st758
 	st758:
@@ -1910,7 +1916,7 @@ tr16:
 			goto _test_eof758
 		}
 	st_case_758:
-//line msg_parse.go:1905
+//line msg_parse.go:1911
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1923,7 +1929,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1918
+//line msg_parse.go:1924
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2052,7 +2058,9 @@ tr2:
 tr20:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	num, err = addDigit(int(msg.VersionMajor), data[p], math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(num)
 
 	goto st18
 	st18:
@@ -2060,7 +2068,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2055
+//line msg_parse.go:2063
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2078,9 +2086,11 @@ tr20:
 		}
 		goto st0
 tr22:
-//line sip.rl:120
+//line sip.rl:122
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	num, err = addDigit(int(msg.VersionMinor), data[p], math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(num)
 
 	goto st20
 	st20:
@@ -2088,7 +2098,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2083
+//line msg_parse.go:2093
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2106,7 +2116,7 @@ tr22:
 		}
 		goto st0
 tr24:
-//line sip.rl:129
+//line sip.rl:133
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2116,13 +2126,13 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2111
+//line msg_parse.go:2121
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
 		goto st0
 tr25:
-//line sip.rl:129
+//line sip.rl:133
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2132,13 +2142,13 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2127
+//line msg_parse.go:2137
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
 		goto st0
 tr26:
-//line sip.rl:129
+//line sip.rl:133
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2148,7 +2158,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2143
+//line msg_parse.go:2153
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2251,7 +2261,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2246
+//line msg_parse.go:2256
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2325,7 +2335,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2320
+//line msg_parse.go:2330
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2350,7 +2360,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2345
+//line msg_parse.go:2355
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2387,7 +2397,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2382
+//line msg_parse.go:2392
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2415,7 +2425,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2410
+//line msg_parse.go:2420
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2443,7 +2453,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2438
+//line msg_parse.go:2448
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2471,7 +2481,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2466
+//line msg_parse.go:2476
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2499,7 +2509,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2494
+//line msg_parse.go:2504
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2553,7 +2563,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2548
+//line msg_parse.go:2558
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2678,7 +2688,7 @@ tr46:
 		}
 		goto st0
 tr50:
-//line sip.rl:228
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2688,7 +2698,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2683
+//line msg_parse.go:2693
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2708,7 +2718,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:228
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2718,7 +2728,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2713
+//line msg_parse.go:2723
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2950,7 +2960,7 @@ tr51:
 		}
 		goto st0
 tr52:
-//line sip.rl:228
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2960,13 +2970,13 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2955
+//line msg_parse.go:2965
 		if data[p] == 10 {
 			goto tr66
 		}
 		goto st0
 tr66:
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st759
 	st759:
@@ -2974,10 +2984,10 @@ tr66:
 			goto _test_eof759
 		}
 	st_case_759:
-//line msg_parse.go:2969
+//line msg_parse.go:2979
 		goto st0
 tr53:
-//line sip.rl:228
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2987,7 +2997,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2982
+//line msg_parse.go:2992
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3090,7 +3100,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3085
+//line msg_parse.go:3095
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3146,7 +3156,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3141
+//line msg_parse.go:3151
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3178,7 +3188,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3173
+//line msg_parse.go:3183
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3215,7 +3225,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3210
+//line msg_parse.go:3220
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3243,7 +3253,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3238
+//line msg_parse.go:3248
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3271,7 +3281,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3266
+//line msg_parse.go:3276
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3299,7 +3309,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3294
+//line msg_parse.go:3304
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3327,7 +3337,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3322
+//line msg_parse.go:3332
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3355,7 +3365,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3350
+//line msg_parse.go:3360
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3372,7 +3382,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3367
+//line msg_parse.go:3377
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3596,7 +3606,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3591
+//line msg_parse.go:3601
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3647,7 +3657,7 @@ tr94:
 		}
 		goto st0
 tr95:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -3657,7 +3667,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3652
+//line msg_parse.go:3662
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3681,7 +3691,7 @@ tr95:
 		}
 		goto st0
 tr97:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -3691,7 +3701,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3686
+//line msg_parse.go:3696
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3719,17 +3729,17 @@ tr97:
 		}
 		goto st0
 tr107:
-//line sip.rl:167
+//line sip.rl:173
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:145
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:141
 
 	via = new(Via)
 
@@ -3738,11 +3748,11 @@ tr107:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:270
  {goto st103 } 
 	goto st760
 tr111:
-//line sip.rl:167
+//line sip.rl:173
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
@@ -3755,21 +3765,21 @@ tr111:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:271
  {goto st68 } 
 	goto st760
 tr123:
-//line sip.rl:167
+//line sip.rl:173
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:145
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st760
 	st760:
@@ -3777,7 +3787,7 @@ tr123:
 			goto _test_eof760
 		}
 	st_case_760:
-//line msg_parse.go:3772
+//line msg_parse.go:3782
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3813,7 +3823,7 @@ tr123:
 		}
 		goto tr107
 tr98:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -3823,7 +3833,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3818
+//line msg_parse.go:3828
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3884,7 +3894,7 @@ tr98:
 		}
 		goto tr111
 tr99:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -3894,7 +3904,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3889
+//line msg_parse.go:3899
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3957,7 +3967,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3952
+//line msg_parse.go:3962
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4070,7 +4080,7 @@ tr115:
 		}
 		goto st0
 tr100:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -4080,7 +4090,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4075
+//line msg_parse.go:4085
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4157,7 +4167,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4152
+//line msg_parse.go:4162
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4213,7 +4223,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4208
+//line msg_parse.go:4218
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4247,7 +4257,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4242
+//line msg_parse.go:4252
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4284,7 +4294,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4279
+//line msg_parse.go:4289
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4312,7 +4322,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4307
+//line msg_parse.go:4317
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4340,7 +4350,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4335
+//line msg_parse.go:4345
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4368,7 +4378,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4363
+//line msg_parse.go:4373
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4396,7 +4406,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4391
+//line msg_parse.go:4401
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4424,7 +4434,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4419
+//line msg_parse.go:4429
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4441,7 +4451,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4436
+//line msg_parse.go:4446
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4517,7 +4527,7 @@ tr142:
 		}
 		goto st0
 tr101:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -4527,7 +4537,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4522
+//line msg_parse.go:4532
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4611,7 +4621,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4606
+//line msg_parse.go:4616
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4656,7 +4666,7 @@ tr147:
 		}
 		goto st0
 tr148:
-//line sip.rl:147
+//line sip.rl:151
 
 	via.Protocol = string(data[mark:p])
 
@@ -4666,7 +4676,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4661
+//line msg_parse.go:4671
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4686,7 +4696,7 @@ tr148:
 		}
 		goto st0
 tr150:
-//line sip.rl:147
+//line sip.rl:151
 
 	via.Protocol = string(data[mark:p])
 
@@ -4696,7 +4706,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4691
+//line msg_parse.go:4701
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4754,7 +4764,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4749
+//line msg_parse.go:4759
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4799,7 +4809,7 @@ tr155:
 		}
 		goto st0
 tr157:
-//line sip.rl:151
+//line sip.rl:155
 
 	via.Version = string(data[mark:p])
 
@@ -4809,7 +4819,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4804
+//line msg_parse.go:4814
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4829,7 +4839,7 @@ tr157:
 		}
 		goto st0
 tr159:
-//line sip.rl:151
+//line sip.rl:155
 
 	via.Version = string(data[mark:p])
 
@@ -4839,7 +4849,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4834
+//line msg_parse.go:4844
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4897,7 +4907,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4892
+//line msg_parse.go:4902
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4945,7 +4955,7 @@ tr164:
 		}
 		goto st0
 tr166:
-//line sip.rl:155
+//line sip.rl:159
 
 	via.Transport = string(data[mark:p])
 
@@ -4955,7 +4965,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4950
+//line msg_parse.go:4960
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5002,7 +5012,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4997
+//line msg_parse.go:5007
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5045,7 +5055,7 @@ tr170:
 		}
 		goto st0
 tr173:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5055,7 +5065,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5050
+//line msg_parse.go:5060
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5079,7 +5089,7 @@ tr173:
 		}
 		goto st0
 tr174:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5089,7 +5099,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5084
+//line msg_parse.go:5094
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5117,13 +5127,13 @@ tr174:
 		}
 		goto st0
 tr185:
-//line sip.rl:141
+//line sip.rl:145
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:141
 
 	via = new(Via)
 
@@ -5132,7 +5142,7 @@ tr185:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:270
  {goto st103 } 
 	goto st761
 tr194:
@@ -5145,17 +5155,17 @@ tr194:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:271
  {goto st68 } 
 	goto st761
 tr200:
-//line sip.rl:141
+//line sip.rl:145
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st761
 	st761:
@@ -5163,7 +5173,7 @@ tr200:
 			goto _test_eof761
 		}
 	st_case_761:
-//line msg_parse.go:5158
+//line msg_parse.go:5168
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5199,7 +5209,7 @@ tr200:
 		}
 		goto tr185
 tr176:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5209,7 +5219,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5204
+//line msg_parse.go:5214
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5230,9 +5240,11 @@ tr176:
 		}
 		goto st0
 tr189:
-//line sip.rl:163
+//line sip.rl:167
 
-	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
+	num, err = addDigit(int(via.Port), data[p], math.MaxUint16)
+	if err != nil { return nil, err }
+	via.Port = uint16(num)
 
 	goto st119
 	st119:
@@ -5240,7 +5252,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5235
+//line msg_parse.go:5247
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5292,7 +5304,7 @@ tr189:
 		}
 		goto st0
 tr177:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5302,7 +5314,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5297
+//line msg_parse.go:5309
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5400,7 +5412,7 @@ tr177:
 		}
 		goto st0
 tr178:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5410,7 +5422,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5405
+//line msg_parse.go:5417
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5452,7 +5464,7 @@ tr178:
 		}
 		goto st0
 tr179:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5462,7 +5474,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5457
+//line msg_parse.go:5469
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5529,7 +5541,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5524
+//line msg_parse.go:5536
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5550,7 +5562,7 @@ tr205:
 		}
 		goto st0
 tr207:
-//line sip.rl:159
+//line sip.rl:163
 
 	via.Host = string(data[mark:p])
 
@@ -5560,7 +5572,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5555
+//line msg_parse.go:5567
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5586,7 +5598,7 @@ tr207:
 		}
 		goto st0
 tr168:
-//line sip.rl:155
+//line sip.rl:159
 
 	via.Transport = string(data[mark:p])
 
@@ -5596,7 +5608,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5591
+//line msg_parse.go:5603
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5708,7 +5720,7 @@ tr168:
 		}
 		goto st0
 tr160:
-//line sip.rl:151
+//line sip.rl:155
 
 	via.Version = string(data[mark:p])
 
@@ -5718,7 +5730,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5713
+//line msg_parse.go:5725
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5813,7 +5825,7 @@ tr160:
 		}
 		goto st0
 tr151:
-//line sip.rl:147
+//line sip.rl:151
 
 	via.Protocol = string(data[mark:p])
 
@@ -5823,7 +5835,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5818
+//line msg_parse.go:5830
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5907,7 +5919,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5902
+//line msg_parse.go:5914
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5958,7 +5970,7 @@ tr218:
 		}
 		goto st0
 tr219:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -5968,7 +5980,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5963
+//line msg_parse.go:5975
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5992,7 +6004,7 @@ tr219:
 		}
 		goto st0
 tr221:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -6002,7 +6014,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5997
+//line msg_parse.go:6009
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6030,11 +6042,11 @@ tr221:
 		}
 		goto st0
 tr231:
-//line sip.rl:210
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6045,11 +6057,11 @@ tr231:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st762
 tr235:
-//line sip.rl:210
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6058,21 +6070,21 @@ tr235:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st762
 tr247:
-//line sip.rl:210
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st762
 	st762:
@@ -6080,7 +6092,7 @@ tr247:
 			goto _test_eof762
 		}
 	st_case_762:
-//line msg_parse.go:6075
+//line msg_parse.go:6087
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6116,7 +6128,7 @@ tr247:
 		}
 		goto tr231
 tr222:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -6126,7 +6138,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6121
+//line msg_parse.go:6133
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6187,7 +6199,7 @@ tr222:
 		}
 		goto tr235
 tr223:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -6197,7 +6209,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6192
+//line msg_parse.go:6204
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6260,7 +6272,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6255
+//line msg_parse.go:6267
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6373,7 +6385,7 @@ tr239:
 		}
 		goto st0
 tr224:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -6383,7 +6395,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6378
+//line msg_parse.go:6390
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6460,7 +6472,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6455
+//line msg_parse.go:6467
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6516,7 +6528,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6511
+//line msg_parse.go:6523
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6550,7 +6562,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6545
+//line msg_parse.go:6557
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6587,7 +6599,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6582
+//line msg_parse.go:6594
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6615,7 +6627,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6610
+//line msg_parse.go:6622
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6643,7 +6655,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6638
+//line msg_parse.go:6650
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6671,7 +6683,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6666
+//line msg_parse.go:6678
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6699,7 +6711,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6694
+//line msg_parse.go:6706
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6727,7 +6739,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6722
+//line msg_parse.go:6734
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6744,7 +6756,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6739
+//line msg_parse.go:6751
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6820,7 +6832,7 @@ tr266:
 		}
 		goto st0
 tr225:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -6830,7 +6842,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6825
+//line msg_parse.go:6837
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6921,7 +6933,7 @@ tr225:
 		}
 		goto st0
 tr330:
-//line sip.rl:193
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -6931,7 +6943,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6926
+//line msg_parse.go:6938
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6951,7 +6963,7 @@ tr330:
 		}
 		goto st0
 tr306:
-//line sip.rl:197
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6961,7 +6973,7 @@ tr306:
 }
 	goto st190
 tr331:
-//line sip.rl:193
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -6971,7 +6983,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6966
+//line msg_parse.go:6978
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6992,7 +7004,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6987
+//line msg_parse.go:6999
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7078,7 +7090,7 @@ tr276:
 		}
 		goto st0
 tr280:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7089,7 +7101,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7084
+//line msg_parse.go:7096
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7144,7 +7156,7 @@ tr280:
 		}
 		goto st0
 tr286:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7155,7 +7167,7 @@ tr286:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st763
 tr290:
@@ -7164,17 +7176,17 @@ tr290:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st763
 tr294:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st763
 	st763:
@@ -7182,7 +7194,7 @@ tr294:
 			goto _test_eof763
 		}
 	st_case_763:
-//line msg_parse.go:7177
+//line msg_parse.go:7189
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7376,7 +7388,7 @@ tr294:
 		}
 		goto st0
 tr311:
-//line sip.rl:197
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7386,7 +7398,7 @@ tr311:
 }
 	goto st210
 tr332:
-//line sip.rl:193
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -7396,7 +7408,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7391
+//line msg_parse.go:7403
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7438,7 +7450,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7433
+//line msg_parse.go:7445
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7486,7 +7498,7 @@ tr272:
 		}
 		goto st0
 tr305:
-//line sip.rl:197
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7500,7 +7512,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7495
+//line msg_parse.go:7507
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7550,7 +7562,7 @@ tr305:
 		}
 		goto st0
 tr307:
-//line sip.rl:197
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7564,7 +7576,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7559
+//line msg_parse.go:7571
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7582,7 +7594,7 @@ tr307:
 		}
 		goto st0
 tr310:
-//line sip.rl:197
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7596,7 +7608,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7591
+//line msg_parse.go:7603
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7656,7 +7668,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7651
+//line msg_parse.go:7663
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7724,7 +7736,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7719
+//line msg_parse.go:7731
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7780,7 +7792,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7775
+//line msg_parse.go:7787
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7810,7 +7822,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7805
+//line msg_parse.go:7817
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7847,7 +7859,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7842
+//line msg_parse.go:7854
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7875,7 +7887,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7870
+//line msg_parse.go:7882
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7903,7 +7915,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7898
+//line msg_parse.go:7910
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7931,7 +7943,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7926
+//line msg_parse.go:7938
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7959,7 +7971,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7954
+//line msg_parse.go:7966
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -7987,7 +7999,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7982
+//line msg_parse.go:7994
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -8004,7 +8016,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7999
+//line msg_parse.go:8011
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8135,7 +8147,7 @@ tr333:
 		}
 		goto st0
 tr337:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8146,7 +8158,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8141
+//line msg_parse.go:8153
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8199,7 +8211,7 @@ tr337:
 		}
 		goto st0
 tr346:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8210,7 +8222,7 @@ tr346:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st764
 tr350:
@@ -8219,17 +8231,17 @@ tr350:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st764
 tr376:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st764
 	st764:
@@ -8237,7 +8249,7 @@ tr376:
 			goto _test_eof764
 		}
 	st_case_764:
-//line msg_parse.go:8232
+//line msg_parse.go:8244
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8337,7 +8349,7 @@ tr376:
 		}
 		goto tr350
 tr341:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8348,7 +8360,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8343
+//line msg_parse.go:8355
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8382,7 +8394,7 @@ tr341:
 		}
 		goto st0
 tr338:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8393,7 +8405,7 @@ tr338:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8388
+//line msg_parse.go:8400
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8448,7 +8460,7 @@ tr338:
 		}
 		goto st0
 tr356:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8459,7 +8471,7 @@ tr356:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8454
+//line msg_parse.go:8466
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8491,7 +8503,7 @@ tr356:
 		}
 		goto st0
 tr362:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8502,7 +8514,7 @@ tr362:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st765
 	st765:
@@ -8510,7 +8522,7 @@ tr362:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:8505
+//line msg_parse.go:8517
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8538,7 +8550,7 @@ tr362:
 		}
 		goto st0
 tr360:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8549,7 +8561,7 @@ tr360:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8544
+//line msg_parse.go:8556
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8583,7 +8595,7 @@ tr360:
 		}
 		goto tr346
 tr357:
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8594,7 +8606,7 @@ tr357:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st766
 tr367:
@@ -8603,7 +8615,7 @@ tr367:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st766
 	st766:
@@ -8611,7 +8623,7 @@ tr367:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:8606
+//line msg_parse.go:8618
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8657,7 +8669,7 @@ tr367:
 		}
 		goto st0
 tr339:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8668,7 +8680,7 @@ tr339:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8663
+//line msg_parse.go:8675
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8723,7 +8735,7 @@ tr339:
 		}
 		goto st0
 tr366:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8734,7 +8746,7 @@ tr366:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8729
+//line msg_parse.go:8741
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8771,7 +8783,7 @@ tr372:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st767
 	st767:
@@ -8779,7 +8791,7 @@ tr372:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:8774
+//line msg_parse.go:8786
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8807,7 +8819,7 @@ tr372:
 		}
 		goto st0
 tr370:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8818,7 +8830,7 @@ tr370:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8813
+//line msg_parse.go:8825
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8852,7 +8864,7 @@ tr370:
 		}
 		goto tr350
 tr368:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8862,7 +8874,7 @@ tr368:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st768
 	st768:
@@ -8870,7 +8882,7 @@ tr368:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:8865
+//line msg_parse.go:8877
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8925,12 +8937,12 @@ tr368:
 		}
 		goto st0
 tr358:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8941,7 +8953,7 @@ tr358:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st769
 	st769:
@@ -8949,7 +8961,7 @@ tr358:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:8944
+//line msg_parse.go:8956
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9004,12 +9016,12 @@ tr358:
 		}
 		goto st0
 tr359:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -9020,11 +9032,11 @@ tr359:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st770
 tr369:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9034,7 +9046,7 @@ tr369:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:265
  {goto st153 } 
 	goto st770
 	st770:
@@ -9042,13 +9054,13 @@ tr369:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:9037
+//line msg_parse.go:9049
 		if data[p] == 10 {
 			goto tr376
 		}
 		goto st0
 tr340:
-//line sip.rl:205
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9059,7 +9071,7 @@ tr340:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9054
+//line msg_parse.go:9066
 		if data[p] == 10 {
 			goto tr376
 		}
@@ -9121,7 +9133,7 @@ tr377:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9116
+//line msg_parse.go:9128
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9222,7 +9234,7 @@ tr377:
 		}
 		goto st0
 tr378:
-//line sip.rl:189
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9231,11 +9243,11 @@ tr378:
 	p--
 
 
-//line sip.rl:253
+//line sip.rl:264
  {goto st188 } 
 	goto st771
 tr383:
-//line sip.rl:189
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9244,11 +9256,11 @@ tr383:
 	p = ( mark) - 1
 
 
-//line sip.rl:253
+//line sip.rl:264
  {goto st188 } 
 	goto st771
 tr387:
-//line sip.rl:189
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9257,7 +9269,7 @@ tr387:
 	p = ( mark) - 1
 
 
-//line sip.rl:255
+//line sip.rl:266
  {goto st229 } 
 	goto st771
 	st771:
@@ -9265,7 +9277,7 @@ tr387:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:9260
+//line msg_parse.go:9272
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9343,7 +9355,7 @@ tr379:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9338
+//line msg_parse.go:9350
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9454,7 +9466,7 @@ tr388:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9449
+//line msg_parse.go:9461
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9508,7 +9520,7 @@ tr389:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9503
+//line msg_parse.go:9515
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9524,7 +9536,7 @@ tr390:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9519
+//line msg_parse.go:9531
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9540,7 +9552,7 @@ tr391:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9535
+//line msg_parse.go:9547
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9556,7 +9568,7 @@ tr392:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9551
+//line msg_parse.go:9563
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9572,7 +9584,7 @@ tr393:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9567
+//line msg_parse.go:9579
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9588,13 +9600,13 @@ tr394:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9583
+//line msg_parse.go:9595
 		if data[p] == 10 {
 			goto tr404
 		}
 		goto st0
 tr404:
-//line sip.rl:180
+//line sip.rl:186
 {
 	b := data[mark:p - 1]
 	if value != nil {
@@ -9603,7 +9615,7 @@ tr404:
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st772
 	st772:
@@ -9611,7 +9623,7 @@ tr404:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:9606
+//line msg_parse.go:9618
 		goto st0
 tr395:
 //line sip.rl:80
@@ -9624,7 +9636,7 @@ tr395:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9619
+//line msg_parse.go:9631
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9724,7 +9736,7 @@ tr395:
 		}
 		goto st0
 tr407:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -9734,7 +9746,7 @@ tr407:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9729
+//line msg_parse.go:9741
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9745,7 +9757,7 @@ tr407:
 		}
 		goto st0
 tr408:
-//line sip.rl:176
+//line sip.rl:182
 
 	name = string(data[mark:p])
 
@@ -9755,7 +9767,7 @@ tr408:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9750
+//line msg_parse.go:9762
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9783,14 +9795,14 @@ tr408:
 		}
 		goto st0
 tr411:
-//line sip.rl:532
+//line sip.rl:543
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:269
  {goto st263 } 
 	goto st773
 	st773:
@@ -9798,7 +9810,7 @@ value=nil
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:9793
+//line msg_parse.go:9805
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9896,7 +9908,7 @@ tr415:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9891
+//line msg_parse.go:9903
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9999,147 +10011,147 @@ tr415:
 		}
 		goto tr417
 tr436:
-//line sip.rl:451
+//line sip.rl:462
 value=&msg.AcceptContact
 	goto st283
 tr451:
-//line sip.rl:450
+//line sip.rl:461
 value=&msg.Accept
 	goto st283
 tr470:
-//line sip.rl:452
+//line sip.rl:463
 value=&msg.AcceptEncoding
 	goto st283
 tr479:
-//line sip.rl:453
+//line sip.rl:464
 value=&msg.AcceptLanguage
 	goto st283
 tr490:
-//line sip.rl:456
+//line sip.rl:467
 value=&msg.AlertInfo
 	goto st283
 tr494:
-//line sip.rl:454
+//line sip.rl:465
 value=&msg.Allow
 	goto st283
 tr503:
-//line sip.rl:455
+//line sip.rl:466
 value=&msg.AllowEvents
 	goto st283
 tr523:
-//line sip.rl:457
+//line sip.rl:468
 value=&msg.AuthenticationInfo
 	goto st283
 tr533:
-//line sip.rl:458
+//line sip.rl:469
 value=&msg.Authorization
 	goto st283
 tr535:
-//line sip.rl:475
+//line sip.rl:486
 value=&msg.ReferredBy
 	goto st283
 tr565:
-//line sip.rl:462
+//line sip.rl:473
 value=&msg.CallInfo
 	goto st283
 tr598:
-//line sip.rl:459
+//line sip.rl:470
 value=&msg.ContentDisposition
 	goto st283
 tr607:
-//line sip.rl:461
+//line sip.rl:472
 value=&msg.ContentEncoding
 	goto st283
 tr617:
-//line sip.rl:460
+//line sip.rl:471
 value=&msg.ContentLanguage
 	goto st283
-tr651:
-//line sip.rl:463
+tr652:
+//line sip.rl:474
 value=&msg.Date
 	goto st283
-tr664:
-//line sip.rl:464
+tr665:
+//line sip.rl:475
 value=&msg.ErrorInfo
 	goto st283
-tr669:
-//line sip.rl:465
+tr670:
+//line sip.rl:476
 value=&msg.Event
 	goto st283
-tr698:
-//line sip.rl:466
+tr699:
+//line sip.rl:477
 value=&msg.InReplyTo
 	goto st283
-tr700:
-//line sip.rl:480
+tr701:
+//line sip.rl:491
 value=&msg.Supported
 	goto st283
-tr732:
-//line sip.rl:468
+tr733:
+//line sip.rl:479
 value=&msg.MIMEVersion
 	goto st283
-tr760:
-//line sip.rl:469
+tr761:
+//line sip.rl:480
 value=&msg.Organization
 	goto st283
-tr790:
-//line sip.rl:470
+tr791:
+//line sip.rl:481
 value=&msg.Priority
 	goto st283
-tr809:
-//line sip.rl:471
+tr810:
+//line sip.rl:482
 value=&msg.ProxyAuthenticate
 	goto st283
-tr819:
-//line sip.rl:472
+tr820:
+//line sip.rl:483
 value=&msg.ProxyAuthorization
 	goto st283
-tr827:
-//line sip.rl:473
+tr828:
+//line sip.rl:484
 value=&msg.ProxyRequire
 	goto st283
-tr829:
-//line sip.rl:474
+tr830:
+//line sip.rl:485
 value=&msg.ReferTo
 	goto st283
-tr879:
-//line sip.rl:467
+tr880:
+//line sip.rl:478
 value=&msg.ReplyTo
 	goto st283
-tr885:
-//line sip.rl:476
+tr886:
+//line sip.rl:487
 value=&msg.Require
 	goto st283
-tr895:
-//line sip.rl:477
+tr896:
+//line sip.rl:488
 value=&msg.RetryAfter
 	goto st283
-tr902:
-//line sip.rl:479
+tr903:
+//line sip.rl:490
 value=&msg.Subject
 	goto st283
-tr910:
-//line sip.rl:478
+tr911:
+//line sip.rl:489
 value=&msg.Server
 	goto st283
-tr934:
-//line sip.rl:481
+tr935:
+//line sip.rl:492
 value=&msg.Timestamp
 	goto st283
-tr947:
-//line sip.rl:482
+tr948:
+//line sip.rl:493
 value=&msg.Unsupported
 	goto st283
-tr957:
-//line sip.rl:483
+tr958:
+//line sip.rl:494
 value=&msg.UserAgent
 	goto st283
-tr974:
-//line sip.rl:484
+tr975:
+//line sip.rl:495
 value=&msg.Warning
 	goto st283
-tr990:
-//line sip.rl:485
+tr991:
+//line sip.rl:496
 value=&msg.WWWAuthenticate
 	goto st283
 	st283:
@@ -10147,7 +10159,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10142
+//line msg_parse.go:10154
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10158,147 +10170,147 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr437:
-//line sip.rl:451
+//line sip.rl:462
 value=&msg.AcceptContact
 	goto st284
 tr453:
-//line sip.rl:450
+//line sip.rl:461
 value=&msg.Accept
 	goto st284
 tr471:
-//line sip.rl:452
+//line sip.rl:463
 value=&msg.AcceptEncoding
 	goto st284
 tr480:
-//line sip.rl:453
+//line sip.rl:464
 value=&msg.AcceptLanguage
 	goto st284
 tr491:
-//line sip.rl:456
+//line sip.rl:467
 value=&msg.AlertInfo
 	goto st284
 tr496:
-//line sip.rl:454
+//line sip.rl:465
 value=&msg.Allow
 	goto st284
 tr504:
-//line sip.rl:455
+//line sip.rl:466
 value=&msg.AllowEvents
 	goto st284
 tr524:
-//line sip.rl:457
+//line sip.rl:468
 value=&msg.AuthenticationInfo
 	goto st284
 tr534:
-//line sip.rl:458
+//line sip.rl:469
 value=&msg.Authorization
 	goto st284
 tr536:
-//line sip.rl:475
+//line sip.rl:486
 value=&msg.ReferredBy
 	goto st284
 tr566:
-//line sip.rl:462
+//line sip.rl:473
 value=&msg.CallInfo
 	goto st284
 tr599:
-//line sip.rl:459
+//line sip.rl:470
 value=&msg.ContentDisposition
 	goto st284
 tr608:
-//line sip.rl:461
+//line sip.rl:472
 value=&msg.ContentEncoding
 	goto st284
 tr618:
-//line sip.rl:460
+//line sip.rl:471
 value=&msg.ContentLanguage
 	goto st284
-tr652:
-//line sip.rl:463
+tr653:
+//line sip.rl:474
 value=&msg.Date
 	goto st284
-tr665:
-//line sip.rl:464
+tr666:
+//line sip.rl:475
 value=&msg.ErrorInfo
 	goto st284
-tr670:
-//line sip.rl:465
+tr671:
+//line sip.rl:476
 value=&msg.Event
 	goto st284
-tr699:
-//line sip.rl:466
+tr700:
+//line sip.rl:477
 value=&msg.InReplyTo
 	goto st284
-tr701:
-//line sip.rl:480
+tr702:
+//line sip.rl:491
 value=&msg.Supported
 	goto st284
-tr733:
-//line sip.rl:468
+tr734:
+//line sip.rl:479
 value=&msg.MIMEVersion
 	goto st284
-tr761:
-//line sip.rl:469
+tr762:
+//line sip.rl:480
 value=&msg.Organization
 	goto st284
-tr791:
-//line sip.rl:470
+tr792:
+//line sip.rl:481
 value=&msg.Priority
 	goto st284
-tr810:
-//line sip.rl:471
+tr811:
+//line sip.rl:482
 value=&msg.ProxyAuthenticate
 	goto st284
-tr820:
-//line sip.rl:472
+tr821:
+//line sip.rl:483
 value=&msg.ProxyAuthorization
 	goto st284
-tr828:
-//line sip.rl:473
+tr829:
+//line sip.rl:484
 value=&msg.ProxyRequire
 	goto st284
-tr830:
-//line sip.rl:474
+tr831:
+//line sip.rl:485
 value=&msg.ReferTo
 	goto st284
-tr880:
-//line sip.rl:467
+tr881:
+//line sip.rl:478
 value=&msg.ReplyTo
 	goto st284
-tr886:
-//line sip.rl:476
+tr887:
+//line sip.rl:487
 value=&msg.Require
 	goto st284
-tr896:
-//line sip.rl:477
+tr897:
+//line sip.rl:488
 value=&msg.RetryAfter
 	goto st284
-tr903:
-//line sip.rl:479
+tr904:
+//line sip.rl:490
 value=&msg.Subject
 	goto st284
-tr911:
-//line sip.rl:478
+tr912:
+//line sip.rl:489
 value=&msg.Server
 	goto st284
-tr935:
-//line sip.rl:481
+tr936:
+//line sip.rl:492
 value=&msg.Timestamp
 	goto st284
-tr948:
-//line sip.rl:482
+tr949:
+//line sip.rl:493
 value=&msg.Unsupported
 	goto st284
-tr958:
-//line sip.rl:483
+tr959:
+//line sip.rl:494
 value=&msg.UserAgent
 	goto st284
-tr975:
-//line sip.rl:484
+tr976:
+//line sip.rl:495
 value=&msg.Warning
 	goto st284
-tr991:
-//line sip.rl:485
+tr992:
+//line sip.rl:496
 value=&msg.WWWAuthenticate
 	goto st284
 	st284:
@@ -10306,7 +10318,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10301
+//line msg_parse.go:10313
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10334,7 +10346,7 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr560:
-//line sip.rl:257
+//line sip.rl:268
  {goto st280 } 
 	goto st774
 tr443:
@@ -10343,7 +10355,7 @@ tr443:
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:269
  {goto st263 } 
 	goto st774
 tr542:
@@ -10352,22 +10364,22 @@ tr542:
 	p--
 
 
-//line sip.rl:256
+//line sip.rl:267
  {goto st34 } 
 	goto st774
 tr577:
-//line sip.rl:534
+//line sip.rl:545
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:263
  {goto st256 } 
 	goto st774
-tr962:
-//line sip.rl:137
+tr963:
+//line sip.rl:141
 
 	via = new(Via)
 
@@ -10376,10 +10388,10 @@ tr962:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:270
  {goto st103 } 
 	goto st774
-tr992:
+tr993:
 //line sip.rl:76
 
 	{p++; cs = 774; goto _out }
@@ -10390,7 +10402,7 @@ tr992:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:10385
+//line msg_parse.go:10397
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11630,7 +11642,7 @@ tr554:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11625
+//line msg_parse.go:11637
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11769,13 +11781,13 @@ tr554:
 		}
 		goto st0
 tr558:
-//line sip.rl:220
+//line sip.rl:226
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
-//line sip.rl:236
+tr644:
+//line sip.rl:244
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11785,7 +11797,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11780
+//line msg_parse.go:11792
 		if data[p] == 10 {
 			goto tr560
 		}
@@ -11974,31 +11986,31 @@ tr643:
 		}
 		goto tr417
 tr573:
-//line sip.rl:437
+//line sip.rl:448
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
-//line sip.rl:438
+tr684:
+//line sip.rl:449
 addrp=lastAddr(&msg.From)
 	goto st394
-tr781:
-//line sip.rl:439
+tr782:
+//line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr848:
-//line sip.rl:440
+tr849:
+//line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr872:
-//line sip.rl:441
+tr873:
+//line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr900:
-//line sip.rl:442
+tr901:
+//line sip.rl:453
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr923:
-//line sip.rl:443
+tr924:
+//line sip.rl:454
 addrp=lastAddr(&msg.To)
 	goto st394
 	st394:
@@ -12006,7 +12018,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12001
+//line msg_parse.go:12013
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12017,31 +12029,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr574:
-//line sip.rl:437
+//line sip.rl:448
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
-//line sip.rl:438
+tr685:
+//line sip.rl:449
 addrp=lastAddr(&msg.From)
 	goto st395
-tr782:
-//line sip.rl:439
+tr783:
+//line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr849:
-//line sip.rl:440
+tr850:
+//line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr873:
-//line sip.rl:441
+tr874:
+//line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr901:
-//line sip.rl:442
+tr902:
+//line sip.rl:453
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr924:
-//line sip.rl:443
+tr925:
+//line sip.rl:454
 addrp=lastAddr(&msg.To)
 	goto st395
 	st395:
@@ -12049,7 +12061,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12044
+//line msg_parse.go:12056
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12601,17 +12613,19 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr624:
-//line sip.rl:493
+//line sip.rl:504
 clen=0
-//line sip.rl:224
+//line sip.rl:230
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	clen, err = addDigit(clen, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st437
 tr626:
-//line sip.rl:224
+//line sip.rl:230
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	clen, err = addDigit(clen, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st437
 	st437:
@@ -12619,7 +12633,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12614
+//line msg_parse.go:12628
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12797,9 +12811,19 @@ tr626:
 		}
 		goto st0
 tr637:
-//line sip.rl:232
+//line sip.rl:505
+msg.CSeq=0
+//line sip.rl:239
 
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st450
+tr640:
+//line sip.rl:239
+
+	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st450
 	st450:
@@ -12807,7 +12831,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12802
+//line msg_parse.go:12826
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12824,7 +12848,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr640
 		}
 		goto st0
 	st451:
@@ -12845,13 +12869,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		case 525:
 			goto st453
 		}
@@ -12860,25 +12884,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
-tr641:
+tr642:
 //line sip.rl:80
 
 	mark = p
@@ -12889,7 +12913,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12884
+//line msg_parse.go:12908
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12907,7 +12931,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
@@ -12964,35 +12988,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
 	st456:
@@ -13074,11 +13098,11 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr652
 		case 32:
-			goto tr651
-		case 58:
 			goto tr652
+		case 58:
+			goto tr653
 		}
 		goto tr417
 	st463:
@@ -13207,11 +13231,11 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr665
 		case 32:
-			goto tr664
-		case 58:
 			goto tr665
+		case 58:
+			goto tr666
 		}
 		goto tr417
 	st473:
@@ -13257,11 +13281,11 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		}
 		goto tr417
 	st477:
@@ -13373,21 +13397,23 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
-tr678:
-//line sip.rl:495
+tr679:
+//line sip.rl:506
 msg.Expires=0
-//line sip.rl:240
+//line sip.rl:248
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st485
-tr680:
-//line sip.rl:240
+tr681:
+//line sip.rl:248
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st485
 	st485:
@@ -13395,7 +13421,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13390
+//line msg_parse.go:13416
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13407,7 +13433,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr681
 		}
 		goto st0
 	st486:
@@ -13443,7 +13469,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
 	st489:
@@ -13453,11 +13479,11 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		case 82:
 			goto st490
 		case 114:
@@ -13495,11 +13521,11 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		}
 		goto tr417
 	st493:
@@ -13629,11 +13655,11 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr699
 		case 32:
-			goto tr698
-		case 58:
 			goto tr699
+		case 58:
+			goto tr700
 		}
 		goto tr417
 	st504:
@@ -13643,11 +13669,11 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr701
 		case 32:
-			goto tr700
-		case 58:
 			goto tr701
+		case 58:
+			goto tr702
 		}
 		goto tr417
 	st505:
@@ -13838,21 +13864,23 @@ tr680:
 			goto st520
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr716
+			goto tr717
 		}
 		goto st0
-tr716:
-//line sip.rl:496
+tr717:
+//line sip.rl:507
 msg.MaxForwards=0
-//line sip.rl:244
+//line sip.rl:253
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st519
-tr718:
-//line sip.rl:244
+tr719:
+//line sip.rl:253
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st519
 	st519:
@@ -13860,7 +13888,7 @@ tr718:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13855
+//line msg_parse.go:13883
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13872,7 +13900,7 @@ tr718:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr718
+			goto tr719
 		}
 		goto st0
 	st520:
@@ -13908,7 +13936,7 @@ tr718:
 			goto st522
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr716
+			goto tr717
 		}
 		goto st0
 	st523:
@@ -14039,11 +14067,11 @@ tr718:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr732
+			goto tr733
 		case 32:
-			goto tr732
-		case 58:
 			goto tr733
+		case 58:
+			goto tr734
 		}
 		goto tr417
 	st534:
@@ -14188,21 +14216,23 @@ tr718:
 			goto st546
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr744
+			goto tr745
 		}
 		goto st0
-tr744:
-//line sip.rl:497
+tr745:
+//line sip.rl:508
 msg.MinExpires=0
-//line sip.rl:248
+//line sip.rl:258
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st545
-tr746:
-//line sip.rl:248
+tr747:
+//line sip.rl:258
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
+	if err != nil { return nil, err }
 
 	goto st545
 	st545:
@@ -14210,7 +14240,7 @@ tr746:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14205
+//line msg_parse.go:14235
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14222,7 +14252,7 @@ tr746:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr746
+			goto tr747
 		}
 		goto st0
 	st546:
@@ -14258,7 +14288,7 @@ tr746:
 			goto st548
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr744
+			goto tr745
 		}
 		goto st0
 	st549:
@@ -14268,11 +14298,11 @@ tr746:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		case 82:
 			goto st550
 		case 114:
@@ -14406,11 +14436,11 @@ tr746:
 	st_case_560:
 		switch data[p] {
 		case 9:
-			goto tr760
+			goto tr761
 		case 32:
-			goto tr760
-		case 58:
 			goto tr761
+		case 58:
+			goto tr762
 		}
 		goto tr417
 	st561:
@@ -14635,11 +14665,11 @@ tr746:
 	st_case_579:
 		switch data[p] {
 		case 9:
-			goto tr781
+			goto tr782
 		case 32:
-			goto tr781
-		case 58:
 			goto tr782
+		case 58:
+			goto tr783
 		}
 		goto tr417
 	st580:
@@ -14725,11 +14755,11 @@ tr746:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr790
+			goto tr791
 		case 32:
-			goto tr790
-		case 58:
 			goto tr791
+		case 58:
+			goto tr792
 		}
 		goto tr417
 	st587:
@@ -14924,11 +14954,11 @@ tr746:
 	st_case_602:
 		switch data[p] {
 		case 9:
-			goto tr809
+			goto tr810
 		case 32:
-			goto tr809
-		case 58:
 			goto tr810
+		case 58:
+			goto tr811
 		}
 		goto tr417
 	st603:
@@ -15034,11 +15064,11 @@ tr746:
 	st_case_611:
 		switch data[p] {
 		case 9:
-			goto tr819
+			goto tr820
 		case 32:
-			goto tr819
-		case 58:
 			goto tr820
+		case 58:
+			goto tr821
 		}
 		goto tr417
 	st612:
@@ -15120,11 +15150,11 @@ tr746:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr827
+			goto tr828
 		case 32:
-			goto tr827
-		case 58:
 			goto tr828
+		case 58:
+			goto tr829
 		}
 		goto tr417
 	st619:
@@ -15134,11 +15164,11 @@ tr746:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr829
+			goto tr830
 		case 32:
-			goto tr829
-		case 58:
 			goto tr830
+		case 58:
+			goto tr831
 		case 69:
 			goto st620
 		case 79:
@@ -15293,11 +15323,11 @@ tr746:
 	st_case_630:
 		switch data[p] {
 		case 9:
-			goto tr848
+			goto tr849
 		case 32:
-			goto tr848
-		case 58:
 			goto tr849
+		case 58:
+			goto tr850
 		}
 		goto tr417
 	st631:
@@ -15369,11 +15399,11 @@ tr746:
 	st_case_636:
 		switch data[p] {
 		case 9:
-			goto tr829
+			goto tr830
 		case 32:
-			goto tr829
-		case 58:
 			goto tr830
+		case 58:
+			goto tr831
 		}
 		goto tr417
 	st637:
@@ -15578,11 +15608,11 @@ tr746:
 	st_case_654:
 		switch data[p] {
 		case 9:
-			goto tr872
+			goto tr873
 		case 32:
-			goto tr872
-		case 58:
 			goto tr873
+		case 58:
+			goto tr874
 		}
 		goto tr417
 	st655:
@@ -15649,11 +15679,11 @@ tr746:
 	st_case_660:
 		switch data[p] {
 		case 9:
-			goto tr879
+			goto tr880
 		case 32:
-			goto tr879
-		case 58:
 			goto tr880
+		case 58:
+			goto tr881
 		}
 		goto tr417
 	st661:
@@ -15711,11 +15741,11 @@ tr746:
 	st_case_665:
 		switch data[p] {
 		case 9:
-			goto tr885
+			goto tr886
 		case 32:
-			goto tr885
-		case 58:
 			goto tr886
+		case 58:
+			goto tr887
 		}
 		goto tr417
 	st666:
@@ -15818,11 +15848,11 @@ tr746:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr895
+			goto tr896
 		case 32:
-			goto tr895
-		case 58:
 			goto tr896
+		case 58:
+			goto tr897
 		}
 		goto tr417
 	st675:
@@ -15868,11 +15898,11 @@ tr746:
 	st_case_678:
 		switch data[p] {
 		case 9:
-			goto tr900
+			goto tr901
 		case 32:
-			goto tr900
-		case 58:
 			goto tr901
+		case 58:
+			goto tr902
 		}
 		goto tr417
 	st679:
@@ -15882,11 +15912,11 @@ tr746:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr903
 		case 32:
-			goto tr902
-		case 58:
 			goto tr903
+		case 58:
+			goto tr904
 		case 69:
 			goto st680
 		case 85:
@@ -15952,11 +15982,11 @@ tr746:
 	st_case_684:
 		switch data[p] {
 		case 9:
-			goto tr910
+			goto tr911
 		case 32:
-			goto tr910
-		case 58:
 			goto tr911
+		case 58:
+			goto tr912
 		}
 		goto tr417
 	st685:
@@ -16030,11 +16060,11 @@ tr746:
 	st_case_690:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr903
 		case 32:
-			goto tr902
-		case 58:
 			goto tr903
+		case 58:
+			goto tr904
 		}
 		goto tr417
 	st691:
@@ -16116,11 +16146,11 @@ tr746:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr923
+			goto tr924
 		case 32:
-			goto tr923
-		case 58:
 			goto tr924
+		case 58:
+			goto tr925
 		case 73:
 			goto st698
 		case 79:
@@ -16222,11 +16252,11 @@ tr746:
 	st_case_705:
 		switch data[p] {
 		case 9:
-			goto tr934
+			goto tr935
 		case 32:
-			goto tr934
-		case 58:
 			goto tr935
+		case 58:
+			goto tr936
 		}
 		goto tr417
 	st706:
@@ -16236,11 +16266,11 @@ tr746:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr923
+			goto tr924
 		case 32:
-			goto tr923
-		case 58:
 			goto tr924
+		case 58:
+			goto tr925
 		}
 		goto tr417
 	st707:
@@ -16380,11 +16410,11 @@ tr746:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr947
+			goto tr948
 		case 32:
-			goto tr947
-		case 58:
 			goto tr948
+		case 58:
+			goto tr949
 		}
 		goto tr417
 	st718:
@@ -16487,11 +16517,11 @@ tr746:
 	st_case_726:
 		switch data[p] {
 		case 9:
-			goto tr957
+			goto tr958
 		case 32:
-			goto tr957
-		case 58:
 			goto tr958
+		case 58:
+			goto tr959
 		}
 		goto tr417
 	st727:
@@ -16544,17 +16574,17 @@ tr746:
 		case 32:
 			goto st729
 		case 269:
-			goto tr962
+			goto tr963
 		case 525:
 			goto st730
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr962
+				goto tr963
 			}
 		default:
-			goto tr962
+			goto tr963
 		}
 		goto st0
 	st730:
@@ -16589,7 +16619,7 @@ tr746:
 		case 32:
 			goto st732
 		}
-		goto tr962
+		goto tr963
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
@@ -16699,11 +16729,11 @@ tr746:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto tr974
+			goto tr975
 		case 32:
-			goto tr974
-		case 58:
 			goto tr975
+		case 58:
+			goto tr976
 		}
 		goto tr417
 	st742:
@@ -16878,11 +16908,11 @@ tr746:
 	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr990
+			goto tr991
 		case 32:
-			goto tr990
-		case 58:
 			goto tr991
+		case 58:
+			goto tr992
 		}
 		goto tr417
 	st757:
@@ -16891,7 +16921,7 @@ tr746:
 		}
 	st_case_757:
 		if data[p] == 10 {
-			goto tr992
+			goto tr993
 		}
 		goto st0
 	st_out:
@@ -17673,20 +17703,20 @@ tr746:
 	if p == eof {
 		switch cs {
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
-//line sip.rl:171
+//line sip.rl:177
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17674
+//line msg_parse.go:17704
 		}
 	}
 
 	_out: {}
 	}
 
-//line msg_parse.rl:54
+//line msg_parse.rl:56
 
 	if cs < msg_first_final {
 		if p == pe {
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 123e941..0344eb6 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/jart/gosip/sdp"
+	"math"
 )
 
 %% machine msg;
@@ -40,6 +41,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	amt := 0
 	mark := 0
 	clen := 0
+	num := 0
 	ctype := ""
 	var name string
 	var hex byte
diff --git a/sip/sip.rl b/sip/sip.rl
index 138625e..18bd8f1 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,11 +114,15 @@ action Method {
 }
 
 action VersionMajor {
-	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
+	num, err = addDigit(int(msg.VersionMajor), fc, math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(num)
 }
 
 action VersionMinor {
-	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
+	num, err = addDigit(int(msg.VersionMinor), fc, math.MaxUint8)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(num)
 }
 
 action RequestURI {
@@ -161,7 +165,9 @@ action ViaHost {
 }
 
 action ViaPort {
-	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
+	num, err = addDigit(int(via.Port), fc, math.MaxUint16)
+	if err != nil { return nil, err }
+	via.Port = uint16(num)
 }
 
 action ViaParam {
@@ -222,7 +228,8 @@ action CallID {
 }
 
 action ContentLength {
-	clen = clen * 10 + (int(fc) - 0x30)
+	clen, err = addDigit(clen, fc, maxInt)
+	if err != nil { return nil, err }
 }
 
 action ContentType {
@@ -230,7 +237,8 @@ action ContentType {
 }
 
 action CSeq {
-	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
+	msg.CSeq, err = addDigit(msg.CSeq, fc, maxInt)
+	if err != nil { return nil, err }
 }
 
 action CSeqMethod {
@@ -238,15 +246,18 @@ action CSeqMethod {
 }
 
 action Expires {
-	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
+	msg.Expires, err = addDigit(msg.Expires, fc, maxInt)
+	if err != nil { return nil, err }
 }
 
 action MaxForwards {
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
+	msg.MaxForwards, err = addDigit(msg.MaxForwards, fc, maxInt)
+	if err != nil { return nil, err }
 }
 
 action MinExpires {
-	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
+	msg.MinExpires, err = addDigit(msg.MinExpires, fc, maxInt)
+	if err != nil { return nil, err }
 }
 
 action goto_addr { fgoto addr; }
@@ -491,7 +502,7 @@ sname    = "Accept"i %{value=&msg.Accept}
 # their own special type of parsing.
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
-         | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
+         | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
          | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
          | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
          | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..86c9e22 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -21,12 +21,13 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 )
 
 
-//line uri_parse.rl:25
+//line uri_parse.rl:26
 
-//line uri_parse.go:27
+//line uri_parse.go:28
 const uri_start int = 1
 const uri_first_final int = 45
 const uri_error int = 0
@@ -35,7 +36,7 @@ const uri_en_uriSansUser int = 27
 const uri_en_uriWithUser int = 1
 
 
-//line uri_parse.rl:26
+//line uri_parse.rl:27
 
 // ParseURI turns a a SIP URI byte slice into a data structure.
 func ParseURI(data []byte) (uri *URI, err error) {
@@ -49,27 +50,28 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	eof := len(data)
 	buf := make([]byte, len(data))
 	amt := 0
+	num := 0
 	var b1, b2 string
 	var hex byte
 
 	
-//line uri_parse.rl:161
+//line uri_parse.rl:165
 
 
 	
-//line uri_parse.go:55
+//line uri_parse.go:57
 	{
 	cs = uri_start
 	}
 
-//line uri_parse.rl:164
+//line uri_parse.rl:168
 	if bytes.IndexByte(data, '@') == -1 {
 		cs = uri_en_uriSansUser;
 	} else {
 		cs = uri_en_uriWithUser;
 	}
 	
-//line uri_parse.go:65
+//line uri_parse.go:67
 	{
 	if p == pe {
 		goto _test_eof
@@ -210,11 +212,11 @@ st_case_0:
 		cs = 0
 		goto _out
 tr0:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -225,7 +227,7 @@ tr0:
 		
 	goto st2
 tr2:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -240,7 +242,7 @@ tr2:
 			goto _test_eof2
 		}
 	st_case_2:
-//line uri_parse.go:236
+//line uri_parse.go:238
 		switch data[p] {
 		case 43:
 			goto tr2
@@ -266,7 +268,7 @@ tr2:
 		}
 		goto st0
 tr3:
-//line uri_parse.rl:70
+//line uri_parse.rl:72
 
 			uri.Scheme = string(buf[0:amt])
 		
@@ -276,7 +278,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line uri_parse.go:272
+//line uri_parse.go:274
 		switch data[p] {
 		case 33:
 			goto tr4
@@ -307,25 +309,25 @@ tr3:
 		}
 		goto st0
 tr4:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st4
 tr6:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st4
 tr11:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -337,7 +339,7 @@ tr11:
 			goto _test_eof4
 		}
 	st_case_4:
-//line uri_parse.go:333
+//line uri_parse.go:335
 		switch data[p] {
 		case 33:
 			goto tr6
@@ -368,7 +370,7 @@ tr11:
 		}
 		goto st0
 tr5:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -378,7 +380,7 @@ tr5:
 			goto _test_eof5
 		}
 	st_case_5:
-//line uri_parse.go:374
+//line uri_parse.go:376
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -393,7 +395,7 @@ tr5:
 		}
 		goto st0
 tr10:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -403,7 +405,7 @@ tr10:
 			goto _test_eof6
 		}
 	st_case_6:
-//line uri_parse.go:399
+//line uri_parse.go:401
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -418,7 +420,7 @@ tr10:
 		}
 		goto st0
 tr8:
-//line uri_parse.rl:74
+//line uri_parse.rl:76
 
 			uri.User = string(buf[0:amt])
 		
@@ -428,7 +430,7 @@ tr8:
 			goto _test_eof7
 		}
 	st_case_7:
-//line uri_parse.go:424
+//line uri_parse.go:426
 		switch data[p] {
 		case 33:
 			goto tr12
@@ -460,25 +462,25 @@ tr8:
 		}
 		goto st0
 tr12:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st8
 tr14:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st8
 tr18:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -490,7 +492,7 @@ tr18:
 			goto _test_eof8
 		}
 	st_case_8:
-//line uri_parse.go:486
+//line uri_parse.go:488
 		switch data[p] {
 		case 33:
 			goto tr14
@@ -524,7 +526,7 @@ tr18:
 		}
 		goto st0
 tr13:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -534,7 +536,7 @@ tr13:
 			goto _test_eof9
 		}
 	st_case_9:
-//line uri_parse.go:530
+//line uri_parse.go:532
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -549,7 +551,7 @@ tr13:
 		}
 		goto st0
 tr17:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -559,7 +561,7 @@ tr17:
 			goto _test_eof10
 		}
 	st_case_10:
-//line uri_parse.go:555
+//line uri_parse.go:557
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -574,13 +576,13 @@ tr17:
 		}
 		goto st0
 tr9:
-//line uri_parse.rl:74
+//line uri_parse.rl:76
 
 			uri.User = string(buf[0:amt])
 		
 	goto st11
 tr16:
-//line uri_parse.rl:78
+//line uri_parse.rl:80
 
 			uri.Pass = string(buf[0:amt])
 		
@@ -590,7 +592,7 @@ tr16:
 			goto _test_eof11
 		}
 	st_case_11:
-//line uri_parse.go:586
+//line uri_parse.go:588
 		switch data[p] {
 		case 43:
 			goto tr19
@@ -616,11 +618,11 @@ tr16:
 		}
 		goto st0
 tr19:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -631,7 +633,7 @@ tr19:
 		
 	goto st45
 tr66:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -646,7 +648,7 @@ tr66:
 			goto _test_eof45
 		}
 	st_case_45:
-//line uri_parse.go:642
+//line uri_parse.go:644
 		switch data[p] {
 		case 43:
 			goto tr66
@@ -676,7 +678,7 @@ tr66:
 		}
 		goto st0
 tr67:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
@@ -686,15 +688,17 @@ tr67:
 			goto _test_eof12
 		}
 	st_case_12:
-//line uri_parse.go:682
+//line uri_parse.go:684
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr21
 		}
 		goto st0
 tr21:
-//line uri_parse.rl:86
+//line uri_parse.rl:88
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			num, err = addDigit(int(uri.Port), data[p], math.MaxUint16)
+			if err != nil { return nil, err }
+			uri.Port = uint16(num)
 		
 	goto st46
 	st46:
@@ -702,7 +706,7 @@ tr21:
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:698
+//line uri_parse.go:702
 		switch data[p] {
 		case 59:
 			goto st13
@@ -714,29 +718,29 @@ tr21:
 		}
 		goto st0
 tr68:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st13
 tr74:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
 tr79:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -746,7 +750,7 @@ tr79:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:742
+//line uri_parse.go:746
 		switch data[p] {
 		case 33:
 			goto tr22
@@ -778,14 +782,14 @@ tr79:
 		}
 		goto st0
 tr72:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st47
 tr25:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -793,16 +797,16 @@ tr25:
 		
 	goto st47
 tr22:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
@@ -813,7 +817,7 @@ tr22:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:809
+//line uri_parse.go:813
 		switch data[p] {
 		case 33:
 			goto tr72
@@ -851,11 +855,11 @@ tr22:
 		}
 		goto st0
 tr23:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -866,7 +870,7 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:862
+//line uri_parse.go:866
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -881,7 +885,7 @@ tr23:
 		}
 		goto st0
 tr24:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -891,7 +895,7 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:887
+//line uri_parse.go:891
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -906,7 +910,7 @@ tr24:
 		}
 		goto st0
 tr75:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -917,7 +921,7 @@ tr75:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:913
+//line uri_parse.go:917
 		switch data[p] {
 		case 33:
 			goto tr26
@@ -949,25 +953,25 @@ tr75:
 		}
 		goto st0
 tr26:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st48
 tr77:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st48
 tr29:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -979,7 +983,7 @@ tr29:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:975
+//line uri_parse.go:979
 		switch data[p] {
 		case 33:
 			goto tr77
@@ -1015,7 +1019,7 @@ tr29:
 		}
 		goto st0
 tr27:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -1025,7 +1029,7 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1021
+//line uri_parse.go:1025
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1040,7 +1044,7 @@ tr27:
 		}
 		goto st0
 tr28:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -1050,7 +1054,7 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1046
+//line uri_parse.go:1050
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1065,51 +1069,51 @@ tr28:
 		}
 		goto st0
 tr69:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st19
 tr76:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr80:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr83:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
 tr87:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -1119,7 +1123,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1115
+//line uri_parse.go:1119
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1155,14 +1159,14 @@ tr87:
 		}
 		goto st0
 tr81:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st49
 tr33:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -1170,16 +1174,16 @@ tr33:
 		
 	goto st49
 tr30:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
@@ -1190,7 +1194,7 @@ tr30:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1186
+//line uri_parse.go:1190
 		switch data[p] {
 		case 33:
 			goto tr81
@@ -1228,11 +1232,11 @@ tr30:
 		}
 		goto st0
 tr31:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1243,7 +1247,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1239
+//line uri_parse.go:1243
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1258,7 +1262,7 @@ tr31:
 		}
 		goto st0
 tr32:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -1268,7 +1272,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1264
+//line uri_parse.go:1268
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1283,7 +1287,7 @@ tr32:
 		}
 		goto st0
 tr84:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1294,7 +1298,7 @@ tr84:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1290
+//line uri_parse.go:1294
 		switch data[p] {
 		case 33:
 			goto tr34
@@ -1330,25 +1334,25 @@ tr84:
 		}
 		goto st0
 tr34:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st50
 tr85:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st50
 tr37:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -1360,7 +1364,7 @@ tr37:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1356
+//line uri_parse.go:1360
 		switch data[p] {
 		case 33:
 			goto tr85
@@ -1396,7 +1400,7 @@ tr37:
 		}
 		goto st0
 tr35:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -1406,7 +1410,7 @@ tr35:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1402
+//line uri_parse.go:1406
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1421,7 +1425,7 @@ tr35:
 		}
 		goto st0
 tr36:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -1431,7 +1435,7 @@ tr36:
 			goto _test_eof24
 		}
 	st_case_24:
-//line uri_parse.go:1427
+//line uri_parse.go:1431
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1467,11 +1471,11 @@ tr36:
 		}
 		goto st0
 tr38:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1482,7 +1486,7 @@ tr38:
 		
 	goto st26
 tr39:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1497,7 +1501,7 @@ tr39:
 			goto _test_eof26
 		}
 	st_case_26:
-//line uri_parse.go:1493
+//line uri_parse.go:1497
 		switch data[p] {
 		case 46:
 			goto tr39
@@ -1518,7 +1522,7 @@ tr39:
 		}
 		goto st0
 tr40:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
@@ -1528,7 +1532,7 @@ tr40:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1524
+//line uri_parse.go:1528
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1549,11 +1553,11 @@ tr40:
 		}
 		goto st0
 tr41:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1564,7 +1568,7 @@ tr41:
 		
 	goto st28
 tr42:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1579,7 +1583,7 @@ tr42:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1575
+//line uri_parse.go:1579
 		switch data[p] {
 		case 43:
 			goto tr42
@@ -1605,7 +1609,7 @@ tr42:
 		}
 		goto st0
 tr43:
-//line uri_parse.rl:70
+//line uri_parse.rl:72
 
 			uri.Scheme = string(buf[0:amt])
 		
@@ -1615,7 +1619,7 @@ tr43:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1611
+//line uri_parse.go:1615
 		switch data[p] {
 		case 43:
 			goto tr44
@@ -1641,11 +1645,11 @@ tr43:
 		}
 		goto st0
 tr44:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1656,7 +1660,7 @@ tr44:
 		
 	goto st52
 tr89:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1671,7 +1675,7 @@ tr89:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1667
+//line uri_parse.go:1671
 		switch data[p] {
 		case 43:
 			goto tr89
@@ -1701,7 +1705,7 @@ tr89:
 		}
 		goto st0
 tr90:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
@@ -1711,15 +1715,17 @@ tr90:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1707
+//line uri_parse.go:1711
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr46
 		}
 		goto st0
 tr46:
-//line uri_parse.rl:86
+//line uri_parse.rl:88
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			num, err = addDigit(int(uri.Port), data[p], math.MaxUint16)
+			if err != nil { return nil, err }
+			uri.Port = uint16(num)
 		
 	goto st53
 	st53:
@@ -1727,7 +1733,7 @@ tr46:
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1723
+//line uri_parse.go:1729
 		switch data[p] {
 		case 59:
 			goto st31
@@ -1739,29 +1745,29 @@ tr46:
 		}
 		goto st0
 tr91:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st31
 tr97:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st31
 tr102:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -1771,7 +1777,7 @@ tr102:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1767
+//line uri_parse.go:1773
 		switch data[p] {
 		case 33:
 			goto tr47
@@ -1803,14 +1809,14 @@ tr102:
 		}
 		goto st0
 tr95:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st54
 tr50:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -1818,16 +1824,16 @@ tr50:
 		
 	goto st54
 tr47:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
@@ -1838,7 +1844,7 @@ tr47:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:1834
+//line uri_parse.go:1840
 		switch data[p] {
 		case 33:
 			goto tr95
@@ -1876,11 +1882,11 @@ tr47:
 		}
 		goto st0
 tr48:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1891,7 +1897,7 @@ tr48:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1887
+//line uri_parse.go:1893
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1906,7 +1912,7 @@ tr48:
 		}
 		goto st0
 tr49:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -1916,7 +1922,7 @@ tr49:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1912
+//line uri_parse.go:1918
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1931,7 +1937,7 @@ tr49:
 		}
 		goto st0
 tr98:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1942,7 +1948,7 @@ tr98:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:1938
+//line uri_parse.go:1944
 		switch data[p] {
 		case 33:
 			goto tr51
@@ -1974,25 +1980,25 @@ tr98:
 		}
 		goto st0
 tr51:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st55
 tr100:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st55
 tr54:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -2004,7 +2010,7 @@ tr54:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2000
+//line uri_parse.go:2006
 		switch data[p] {
 		case 33:
 			goto tr100
@@ -2040,7 +2046,7 @@ tr54:
 		}
 		goto st0
 tr52:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -2050,7 +2056,7 @@ tr52:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2046
+//line uri_parse.go:2052
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2065,7 +2071,7 @@ tr52:
 		}
 		goto st0
 tr53:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -2075,7 +2081,7 @@ tr53:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2071
+//line uri_parse.go:2077
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2090,51 +2096,51 @@ tr53:
 		}
 		goto st0
 tr92:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st37
 tr99:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr103:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr106:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st37
 tr110:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -2144,7 +2150,7 @@ tr110:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2140
+//line uri_parse.go:2146
 		switch data[p] {
 		case 33:
 			goto tr55
@@ -2180,14 +2186,14 @@ tr110:
 		}
 		goto st0
 tr104:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st56
 tr58:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -2195,16 +2201,16 @@ tr58:
 		
 	goto st56
 tr55:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
@@ -2215,7 +2221,7 @@ tr55:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2211
+//line uri_parse.go:2217
 		switch data[p] {
 		case 33:
 			goto tr104
@@ -2253,11 +2259,11 @@ tr55:
 		}
 		goto st0
 tr56:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2268,7 +2274,7 @@ tr56:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2264
+//line uri_parse.go:2270
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2283,7 +2289,7 @@ tr56:
 		}
 		goto st0
 tr57:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -2293,7 +2299,7 @@ tr57:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2289
+//line uri_parse.go:2295
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2308,7 +2314,7 @@ tr57:
 		}
 		goto st0
 tr107:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -2319,7 +2325,7 @@ tr107:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2315
+//line uri_parse.go:2321
 		switch data[p] {
 		case 33:
 			goto tr59
@@ -2355,25 +2361,25 @@ tr107:
 		}
 		goto st0
 tr59:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st57
 tr108:
-//line uri_parse.rl:47
+//line uri_parse.rl:49
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st57
 tr62:
-//line uri_parse.rl:56
+//line uri_parse.rl:58
 
 			hex += unhex(data[p])
 			buf[amt] = hex
@@ -2385,7 +2391,7 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2381
+//line uri_parse.go:2387
 		switch data[p] {
 		case 33:
 			goto tr108
@@ -2421,7 +2427,7 @@ tr62:
 		}
 		goto st0
 tr60:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
@@ -2431,7 +2437,7 @@ tr60:
 			goto _test_eof41
 		}
 	st_case_41:
-//line uri_parse.go:2427
+//line uri_parse.go:2433
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2446,7 +2452,7 @@ tr60:
 		}
 		goto st0
 tr61:
-//line uri_parse.rl:52
+//line uri_parse.rl:54
 
 			hex = unhex(data[p]) * 16
 		
@@ -2456,7 +2462,7 @@ tr61:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2452
+//line uri_parse.go:2458
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2492,11 +2498,11 @@ tr61:
 		}
 		goto st0
 tr63:
-//line uri_parse.rl:43
+//line uri_parse.rl:45
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2507,7 +2513,7 @@ tr63:
 		
 	goto st44
 tr64:
-//line uri_parse.rl:100
+//line uri_parse.rl:104
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2522,7 +2528,7 @@ tr64:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:2518
+//line uri_parse.go:2524
 		switch data[p] {
 		case 46:
 			goto tr64
@@ -2543,7 +2549,7 @@ tr64:
 		}
 		goto st0
 tr65:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
@@ -2553,7 +2559,7 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2549
+//line uri_parse.go:2555
 		switch data[p] {
 		case 58:
 			goto st30
@@ -2625,58 +2631,58 @@ tr65:
 	if p == eof {
 		switch cs {
 		case 45, 52:
-//line uri_parse.rl:82
+//line uri_parse.rl:84
 
 			uri.Host = string(buf[0:amt])
 		
 		case 47, 54:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 49, 56:
-//line uri_parse.rl:90
+//line uri_parse.rl:94
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 		case 48, 55:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:113
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 50, 57:
-//line uri_parse.rl:95
+//line uri_parse.rl:99
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:117
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2665
+//line uri_parse.go:2671
 		}
 	}
 
 	_out: {}
 	}
 
-//line uri_parse.rl:170
+//line uri_parse.rl:174
 
 	if cs < uri_first_final {
 		if p == pe {
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..a1c14f3 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 )
 
 %% machine uri;
@@ -36,6 +37,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	eof := len(data)
 	buf := make([]byte, len(data))
 	amt := 0
+	num := 0
 	var b1, b2 string
 	var hex byte
 
@@ -84,7 +86,9 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
-			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
+			num, err = addDigit(int(uri.Port), fc, math.MaxUint16)
+			if err != nil { return nil, err }
+			uri.Port = uint16(num)
 		}
 
 		action b1 {
diff --git a/sip/util.go b/sip/util.go
index ffc91c9..7514a51 100644
--- a/sip/util.go
+++ b/sip/util.go
@@ -14,6 +14,23 @@
 
 package sip
 
+import (
+	"fmt"
+)
+
+const (
+	maxInt = int(^uint(0) >> 1)
+)
+
+// addDigit appends an ASCII decimal digit to a number no larger than max.
+func addDigit(n int, digit byte, max int) (int, error) {
+	d := int(digit - '0')
+	if n > (max-d)/10 {
+		return 0, fmt.Errorf("Number exceeds %d", max)
+	}
+	return n*10 + d, nil
+}
+
 func unhex(b byte) byte {
 	switch {
 	case '0' <= b && b <= '9':
-- 
2.43.0


From f6c09f3f6529f566d86d6d7d8e0524549cf60e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 04/50] fix: render Accept-Contact and Retry-After headers so
 they can be parsed

---
 sip/msg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..de346b9 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
@@ -399,7 +405,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From a9eb5d429e1a3a39eb6cc93f4e3402179a746c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 05/50] fix: escape reason phrase characters the parser would
 refuse

---
 sip/charsets.go |  9 +++++++++
 sip/escape.go   | 14 ++++++++++++++
 sip/msg.go      |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..2175701 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -23,6 +23,7 @@ var (
 	passcMask   [2]uint64
 	paramcMask  [2]uint64
 	headercMask [2]uint64
+	phrasecMask [2]uint64
 )
 
 func tokenc(c byte) bool {
@@ -49,6 +50,10 @@ func headerc(c byte) bool {
 	return charsetContains(&headercMask, c)
 }
 
+func phrasec(c byte) bool {
+	return charsetContains(&phrasecMask, c)
+}
+
 func qdtextesc(c byte) bool {
 	return 0x00 <= c && c <= 0x09 ||
 		0x0B <= c && c <= 0x0C ||
@@ -82,6 +87,10 @@ func init() {
 	charsetAddAlphaNumeric(&headercMask)
 	charsetAddMark(&headercMask)
 	charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$')
+
+	charsetAddAlphaNumeric(&phrasecMask)
+	charsetAddMark(&phrasecMask)
+	charsetAdd(&phrasecMask, ';', '/', '?', ':', '@', '&', '=', '+', '$', ',', ' ', '\t')
 }
 
 func charsetContains(mask *[2]uint64, i byte) bool {
diff --git a/sip/escape.go b/sip/escape.go
index 8d285d8..4a45f3c 100644
--- a/sip/escape.go
+++ b/sip/escape.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 const (
@@ -35,3 +36,16 @@ func appendEscaped(b *bytes.Buffer, s []byte, p func(byte) bool) {
 		}
 	}
 }
+
+// appendPhrase appends a reason phrase, which may have raw UTF-8.
+func appendPhrase(b *bytes.Buffer, s []byte) {
+	for len(s) > 0 {
+		_, n := utf8.DecodeRune(s)
+		if n > 1 {
+			b.Write(s[:n])
+		} else {
+			appendEscaped(b, s[:1], phrasec)
+		}
+		s = s[n:]
+	}
+}
diff --git a/sip/msg.go b/sip/msg.go
index de346b9..bb75a1a 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -155,7 +155,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendPhrase(b, []byte(msg.Phrase))
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From a4dca54c6613ab920b89abf40fb55ed8795b3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 06/50] fix: keep UTF-8 text and outer spaces when quoting, cut
 at a bare line feed

---
 sip/quote.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..68366f5 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 // appendSanitized appends stripping all characters that don't match the predicate.
@@ -33,7 +34,7 @@ func appendSanitized(b *bytes.Buffer, s []byte, p func(byte) bool) {
 // truncate on input error.
 func appendQuoted(b *bytes.Buffer, s []byte) {
 	for i := 0; i < len(s); i++ {
-		if !tokenc(s[i]) && s[i] != ' ' {
+		if !tokenc(s[i]) && (s[i] != ' ' || i == 0 || i == len(s)-1) {
 			appendQuoteQuoted(b, s)
 			return
 		}
@@ -47,14 +48,22 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
 	for i := 0; i < len(s); i++ {
-		if qdtextc(s[i]) {
-			if s[i] == '\r' {
-				if i+2 >= len(s) || s[i+1] != '\n' ||
-					!(s[i+2] == ' ' || s[i+2] == '\t') {
-					break
-				}
+		if s[i] == '\r' || s[i] == '\n' {
+			// Line breaks are only allowed when they continue on the next line.
+			if i+2 >= len(s) || s[i] != '\r' || s[i+1] != '\n' ||
+				!(s[i+2] == ' ' || s[i+2] == '\t') {
+				break
+			}
+			b.WriteByte('\r')
+			i++
+		} else if s[i] >= utf8.RuneSelf {
+			_, n := utf8.DecodeRune(s[i:])
+			if n == 1 {
+				break
 			}
-		} else {
+			b.Write(s[i : i+n-1])
+			i += n - 1
+		} else if !qdtextc(s[i]) {
 			if !qdtextesc(s[i]) {
 				break
 			}
-- 
2.43.0


From 92cc1b3f6089f460ac7e1dff291eae01c0a07f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 07/50] fix: quote parameter values with spaces and skip
 nameless parameters

---
 sip/param.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sip/param.go b/sip/param.go
index 6cf5465..6c5d8b6 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -45,10 +45,19 @@ func (p *Param) Append(b *bytes.Buffer) {
 		return
 	}
 	p.Next.Append(b)
+	var name bytes.Buffer
+	appendSanitized(&name, []byte(p.Name), tokenc)
+	if name.Len() == 0 {
+		return
+	}
 	b.WriteByte(';')
-	appendSanitized(b, []byte(p.Name), tokenc)
+	b.Write(name.Bytes())
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		if strings.IndexByte(p.Value, ' ') != -1 {
+			appendQuoteQuoted(b, []byte(p.Value))
+		} else {
+			appendQuoted(b, []byte(p.Value))
+		}
 	}
 }
-- 
2.43.0


From a20711d7e5227a0e0674438df9b97e7b4ca2cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 08/50] fix: escape URI headers with the character set the
 parser reads

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..af1e8bc 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -50,9 +50,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From b09554c2da1b49d817eeb04d07544556f9b2845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 09/50] fix: copy display names and parameters of addresses,
 vias and URIs

---
 sip/addr.go      | 3 ++-
 sip/param.go     | 8 ++++++++
 sip/uri.go       | 4 ++--
 sip/uriheader.go | 8 ++++++++
 sip/uriparam.go  | 8 ++++++++
 sip/via.go       | 2 +-
 6 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..3da75fd 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,7 +93,8 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
-	res.Param = addr.Param
+	res.Display = addr.Display
+	res.Param = addr.Param.Copy()
 	res.Next = addr.Next.Copy()
 	return res
 }
diff --git a/sip/param.go b/sip/param.go
index 6c5d8b6..d3476e8 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -39,6 +39,14 @@ func (p *Param) Get(name string) *Param {
 	return nil
 }
 
+// Copy returns a deep copy of the list.
+func (p *Param) Copy() *Param {
+	if p == nil {
+		return nil
+	}
+	return &Param{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes parameters in insertion order.
 func (p *Param) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uri.go b/sip/uri.go
index 126a869..03b1f7e 100755
--- a/sip/uri.go
+++ b/sip/uri.go
@@ -63,8 +63,8 @@ func (uri *URI) Copy() *URI {
 	}
 	res := new(URI)
 	*res = *uri
-	res.Param = uri.Param
-	res.Header = uri.Header
+	res.Param = uri.Param.Copy()
+	res.Header = uri.Header.Copy()
 	return res
 }
 
diff --git a/sip/uriheader.go b/sip/uriheader.go
index af1e8bc..f5f12bb 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -39,6 +39,14 @@ func (p *URIHeader) Get(name string) *URIHeader {
 	return p.Next.Get(name)
 }
 
+// Copy returns a deep copy of the list.
+func (p *URIHeader) Copy() *URIHeader {
+	if p == nil {
+		return nil
+	}
+	return &URIHeader{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI headers in insertion order.
 func (p *URIHeader) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uriparam.go b/sip/uriparam.go
index 7b1c705..436ab96 100644
--- a/sip/uriparam.go
+++ b/sip/uriparam.go
@@ -39,6 +39,14 @@ func (p *URIParam) Get(name string) *URIParam {
 	return p.Next.Get(name)
 }
 
+// Copy returns a deep copy of the list.
+func (p *URIParam) Copy() *URIParam {
+	if p == nil {
+		return nil
+	}
+	return &URIParam{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI parameters in insertion order.
 func (p *URIParam) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/via.go b/sip/via.go
index 231ef9b..da66830 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -72,7 +72,7 @@ func (via *Via) Copy() *Via {
 	res.Transport = via.Transport
 	res.Host = via.Host
 	res.Port = via.Port
-	res.Param = via.Param
+	res.Param = via.Param.Copy()
 	res.Next = via.Next.Copy()
 	return res
 }
-- 
2.43.0


From 27f253084420873ac0ecf95f0396cbd581cd8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 10/50] fix: render Via hosts and ports so they parse back

An IPv6 host lost its brackets, an absent port became :0, and port 5060
was dropped.
---
 sip/via.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index da66830..041727a 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,12 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteString("[" + via.Host + "]")
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From 8bd24e60937b0d037f39cbef7f20ed6c355a00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 11/50] fix: treat an absent Via port as 5060 when comparing
 hops

---
 sip/via.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index 041727a..ef9c212 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -107,13 +107,21 @@ func (via *Via) Last() *Via {
 func (via *Via) CompareHostPort(other *Via) bool {
 	if via != nil && other != nil {
 		if via.Host == other.Host &&
-			via.Port == other.Port {
+			via.GetPort() == other.GetPort() {
 			return true
 		}
 	}
 	return false
 }
 
+// GetPort returns the port, which defaults to 5060.
+func (via *Via) GetPort() uint16 {
+	if via.Port == 0 {
+		return 5060
+	}
+	return via.Port
+}
+
 func (via *Via) CompareBranch(other *Via) bool {
 	if via != nil && other != nil {
 		if b1 := via.Param.Get("branch"); b1 != nil {
-- 
2.43.0


From 8f6a4200a222c7d13c323065cff03d7e409ea998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 12/50] fix: accept extension headers named like the beginning
 of a standard one

For example d: or User: was refused because of Date and User-Agent.
---
 sip/msg_parse.go | 8 ++++----
 sip/sip.rl       | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index de40e8d..35c0830 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1681,7 +1681,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 tr417:
 //line sip.rl:177
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
@@ -9795,7 +9795,7 @@ tr408:
 		}
 		goto st0
 tr411:
-//line sip.rl:543
+//line sip.rl:544
 value=nil
 //line sip.rl:72
 
@@ -10368,7 +10368,7 @@ tr542:
  {goto st34 } 
 	goto st774
 tr577:
-//line sip.rl:545
+//line sip.rl:546
 value=nil
 //line sip.rl:72
 
@@ -17705,7 +17705,7 @@ tr747:
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:177
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 18bd8f1..bab9583 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -175,7 +175,7 @@ action ViaParam {
 }
 
 action gxh {
-	fhold;
+	fexec mark;
 	fgoto xheader;
 }
 
@@ -517,7 +517,8 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # Parsing standard header names is a prefix trie search in generated code.
 # Lookahead to set the mark on the header name. In order to support
 # extended headers, we'll use $!gxh to jump to the xheader machine when an
-# unrecognized character is detected in the header name.
+# unrecognized character is detected in the header name. It starts over at
+# the mark, because an extended name may be a prefix of a standard one.
 #
 # An independent machine has been created for generic header values, so
 # that it doesn't need to be duplicated for each leaf in the prefix
-- 
2.43.0


From bc909a2a1d4300b98163ea279586c5671c031b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 13/50] fix: end an unangled address at its first semicolon or
 comma

It used to swallow the separator, so whitespace after it made the
message invalid.
---
 sip/msg_parse.go | 7381 +++++++++++++++++++++-------------------------
 sip/sip.rl       |    2 +-
 2 files changed, 3345 insertions(+), 4038 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 35c0830..8317d57 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -31,7 +31,7 @@ import (
 
 //line msg_parse.go:29
 const msg_start int = 1
-const msg_first_final int = 758
+const msg_first_final int = 748
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -40,10 +40,10 @@ const msg_en_via int = 103
 const msg_en_addr_param int = 153
 const msg_en_addr_angled int = 188
 const msg_en_addr_uri int = 229
-const msg_en_addr int = 256
-const msg_en_value int = 263
-const msg_en_xheader int = 273
-const msg_en_header int = 280
+const msg_en_addr int = 246
+const msg_en_value int = 253
+const msg_en_xheader int = 263
+const msg_en_header int = 270
 const msg_en_main int = 1
 
 
@@ -118,8 +118,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 758:
-		goto st_case_758
+	case 748:
+		goto st_case_748
 	case 14:
 		goto st_case_14
 	case 15:
@@ -182,8 +182,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 759:
-		goto st_case_759
+	case 749:
+		goto st_case_749
 	case 45:
 		goto st_case_45
 	case 46:
@@ -238,8 +238,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 760:
-		goto st_case_760
+	case 750:
+		goto st_case_750
 	case 72:
 		goto st_case_72
 	case 73:
@@ -326,8 +326,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 761:
-		goto st_case_761
+	case 751:
+		goto st_case_751
 	case 115:
 		goto st_case_115
 	case 116:
@@ -412,8 +412,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 762:
-		goto st_case_762
+	case 752:
+		goto st_case_752
 	case 157:
 		goto st_case_157
 	case 158:
@@ -492,8 +492,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 763:
-		goto st_case_763
+	case 753:
+		goto st_case_753
 	case 196:
 		goto st_case_196
 	case 197:
@@ -572,8 +572,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 764:
-		goto st_case_764
+	case 754:
+		goto st_case_754
 	case 235:
 		goto st_case_235
 	case 236:
@@ -598,34 +598,24 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 765:
-		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
+	case 755:
+		goto st_case_755
 	case 249:
 		goto st_case_249
-	case 766:
-		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 767:
-		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 768:
-		goto st_case_768
-	case 769:
-		goto st_case_769
-	case 770:
-		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -634,12 +624,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 771:
-		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
 		goto st_case_260
+	case 756:
+		goto st_case_756
 	case 261:
 		goto st_case_261
 	case 262:
@@ -652,6 +642,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_265
 	case 266:
 		goto st_case_266
+	case 757:
+		goto st_case_757
 	case 267:
 		goto st_case_267
 	case 268:
@@ -660,8 +652,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 772:
-		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -670,12 +660,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_273
 	case 274:
 		goto st_case_274
+	case 758:
+		goto st_case_758
 	case 275:
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 773:
-		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -692,8 +682,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 774:
-		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1620,26 +1608,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_746
 	case 747:
 		goto st_case_747
-	case 748:
-		goto st_case_748
-	case 749:
-		goto st_case_749
-	case 750:
-		goto st_case_750
-	case 751:
-		goto st_case_751
-	case 752:
-		goto st_case_752
-	case 753:
-		goto st_case_753
-	case 754:
-		goto st_case_754
-	case 755:
-		goto st_case_755
-	case 756:
-		goto st_case_756
-	case 757:
-		goto st_case_757
 	}
 	goto st_out
 	st_case_1:
@@ -1678,15 +1646,15 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr417:
+tr397:
 //line sip.rl:177
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1681
+//line msg_parse.go:1649
 st_case_0:
 	st0:
 		cs = 0
@@ -1702,7 +1670,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1697
+//line msg_parse.go:1665
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1749,7 +1717,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1744
+//line msg_parse.go:1712
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1765,7 +1733,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1760
+//line msg_parse.go:1728
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1782,7 +1750,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1777
+//line msg_parse.go:1745
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1836,7 +1804,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1831
+//line msg_parse.go:1799
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1866,7 +1834,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1861
+//line msg_parse.go:1829
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1902,21 +1870,21 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1897
+//line msg_parse.go:1865
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:268
- {goto st280 } 
-	goto st758
-	st758:
+ {goto st270 } 
+	goto st748
+	st748:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof748
 		}
-	st_case_758:
-//line msg_parse.go:1911
+	st_case_748:
+//line msg_parse.go:1879
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1929,7 +1897,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1924
+//line msg_parse.go:1892
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2068,7 +2036,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2063
+//line msg_parse.go:2031
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2098,7 +2066,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2093
+//line msg_parse.go:2061
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2126,7 +2094,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2121
+//line msg_parse.go:2089
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2142,7 +2110,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2137
+//line msg_parse.go:2105
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2158,7 +2126,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2153
+//line msg_parse.go:2121
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2261,7 +2229,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2256
+//line msg_parse.go:2224
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2335,7 +2303,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2330
+//line msg_parse.go:2298
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2360,7 +2328,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2355
+//line msg_parse.go:2323
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2397,7 +2365,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2392
+//line msg_parse.go:2360
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2425,7 +2393,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2420
+//line msg_parse.go:2388
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2453,7 +2421,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2448
+//line msg_parse.go:2416
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2481,7 +2449,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2476
+//line msg_parse.go:2444
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2509,7 +2477,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2504
+//line msg_parse.go:2472
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2563,7 +2531,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2558
+//line msg_parse.go:2526
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2698,7 +2666,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2693
+//line msg_parse.go:2661
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2728,7 +2696,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2723
+//line msg_parse.go:2691
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2970,21 +2938,21 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2965
+//line msg_parse.go:2933
 		if data[p] == 10 {
 			goto tr66
 		}
 		goto st0
 tr66:
 //line sip.rl:268
- {goto st280 } 
-	goto st759
-	st759:
+ {goto st270 } 
+	goto st749
+	st749:
 		if p++; p == pe {
-			goto _test_eof759
+			goto _test_eof749
 		}
-	st_case_759:
-//line msg_parse.go:2979
+	st_case_749:
+//line msg_parse.go:2947
 		goto st0
 tr53:
 //line sip.rl:235
@@ -2997,7 +2965,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2992
+//line msg_parse.go:2960
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3100,7 +3068,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3095
+//line msg_parse.go:3063
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3156,7 +3124,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3151
+//line msg_parse.go:3119
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3188,7 +3156,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3183
+//line msg_parse.go:3151
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3225,7 +3193,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3220
+//line msg_parse.go:3188
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3253,7 +3221,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3248
+//line msg_parse.go:3216
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3281,7 +3249,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3276
+//line msg_parse.go:3244
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3309,7 +3277,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3304
+//line msg_parse.go:3272
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3337,7 +3305,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3332
+//line msg_parse.go:3300
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3365,7 +3333,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3360
+//line msg_parse.go:3328
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3382,7 +3350,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3377
+//line msg_parse.go:3345
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3606,7 +3574,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3601
+//line msg_parse.go:3569
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3667,7 +3635,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3662
+//line msg_parse.go:3630
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3701,7 +3669,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3696
+//line msg_parse.go:3664
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3750,7 +3718,7 @@ tr107:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st760
+	goto st750
 tr111:
 //line sip.rl:173
 
@@ -3767,7 +3735,7 @@ tr111:
 
 //line sip.rl:271
  {goto st68 } 
-	goto st760
+	goto st750
 tr123:
 //line sip.rl:173
 
@@ -3780,14 +3748,14 @@ tr123:
 	via = nil
 
 //line sip.rl:268
- {goto st280 } 
-	goto st760
-	st760:
+ {goto st270 } 
+	goto st750
+	st750:
 		if p++; p == pe {
-			goto _test_eof760
+			goto _test_eof750
 		}
-	st_case_760:
-//line msg_parse.go:3782
+	st_case_750:
+//line msg_parse.go:3750
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3833,7 +3801,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3828
+//line msg_parse.go:3796
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3904,7 +3872,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3899
+//line msg_parse.go:3867
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3967,7 +3935,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3962
+//line msg_parse.go:3930
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4090,7 +4058,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4085
+//line msg_parse.go:4053
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4167,7 +4135,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4162
+//line msg_parse.go:4130
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4223,7 +4191,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4218
+//line msg_parse.go:4186
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4257,7 +4225,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4252
+//line msg_parse.go:4220
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4294,7 +4262,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4289
+//line msg_parse.go:4257
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4322,7 +4290,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4317
+//line msg_parse.go:4285
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4350,7 +4318,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4345
+//line msg_parse.go:4313
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4378,7 +4346,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4373
+//line msg_parse.go:4341
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4406,7 +4374,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4401
+//line msg_parse.go:4369
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4434,7 +4402,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4429
+//line msg_parse.go:4397
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4451,7 +4419,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4446
+//line msg_parse.go:4414
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4537,7 +4505,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4532
+//line msg_parse.go:4500
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4621,7 +4589,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4616
+//line msg_parse.go:4584
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4676,7 +4644,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4671
+//line msg_parse.go:4639
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4706,7 +4674,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4701
+//line msg_parse.go:4669
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4764,7 +4732,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4759
+//line msg_parse.go:4727
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4819,7 +4787,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4814
+//line msg_parse.go:4782
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4849,7 +4817,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4844
+//line msg_parse.go:4812
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4907,7 +4875,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4902
+//line msg_parse.go:4870
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4965,7 +4933,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4960
+//line msg_parse.go:4928
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5012,7 +4980,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:5007
+//line msg_parse.go:4975
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5065,7 +5033,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5060
+//line msg_parse.go:5028
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5099,7 +5067,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5094
+//line msg_parse.go:5062
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5144,7 +5112,7 @@ tr185:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st761
+	goto st751
 tr194:
 //line sip.rl:72
 
@@ -5157,7 +5125,7 @@ tr194:
 
 //line sip.rl:271
  {goto st68 } 
-	goto st761
+	goto st751
 tr200:
 //line sip.rl:145
 
@@ -5166,14 +5134,14 @@ tr200:
 	via = nil
 
 //line sip.rl:268
- {goto st280 } 
-	goto st761
-	st761:
+ {goto st270 } 
+	goto st751
+	st751:
 		if p++; p == pe {
-			goto _test_eof761
+			goto _test_eof751
 		}
-	st_case_761:
-//line msg_parse.go:5168
+	st_case_751:
+//line msg_parse.go:5136
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5219,7 +5187,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5214
+//line msg_parse.go:5182
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5252,7 +5220,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5247
+//line msg_parse.go:5215
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5314,7 +5282,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5309
+//line msg_parse.go:5277
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5422,7 +5390,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5417
+//line msg_parse.go:5385
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5474,7 +5442,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5469
+//line msg_parse.go:5437
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5541,7 +5509,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5536
+//line msg_parse.go:5504
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5572,7 +5540,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5567
+//line msg_parse.go:5535
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5608,7 +5576,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5603
+//line msg_parse.go:5571
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5730,7 +5698,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5725
+//line msg_parse.go:5693
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5835,7 +5803,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5830
+//line msg_parse.go:5798
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5919,7 +5887,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5914
+//line msg_parse.go:5882
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5980,7 +5948,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5975
+//line msg_parse.go:5943
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6014,7 +5982,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:6009
+//line msg_parse.go:5977
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6058,8 +6026,8 @@ tr231:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st762
+ {goto st246 } 
+	goto st752
 tr235:
 //line sip.rl:216
 
@@ -6072,7 +6040,7 @@ tr235:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st762
+	goto st752
 tr247:
 //line sip.rl:216
 
@@ -6085,14 +6053,14 @@ tr247:
 	addr = nil
 
 //line sip.rl:268
- {goto st280 } 
-	goto st762
-	st762:
+ {goto st270 } 
+	goto st752
+	st752:
 		if p++; p == pe {
-			goto _test_eof762
+			goto _test_eof752
 		}
-	st_case_762:
-//line msg_parse.go:6087
+	st_case_752:
+//line msg_parse.go:6055
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6138,7 +6106,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6133
+//line msg_parse.go:6101
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6209,7 +6177,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6204
+//line msg_parse.go:6172
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6272,7 +6240,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6267
+//line msg_parse.go:6235
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6395,7 +6363,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6390
+//line msg_parse.go:6358
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6472,7 +6440,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6467
+//line msg_parse.go:6435
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6528,7 +6496,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6523
+//line msg_parse.go:6491
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6562,7 +6530,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6557
+//line msg_parse.go:6525
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6599,7 +6567,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6594
+//line msg_parse.go:6562
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6627,7 +6595,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6622
+//line msg_parse.go:6590
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6655,7 +6623,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6650
+//line msg_parse.go:6618
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6683,7 +6651,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6678
+//line msg_parse.go:6646
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6711,7 +6679,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6706
+//line msg_parse.go:6674
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6739,7 +6707,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6734
+//line msg_parse.go:6702
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6756,7 +6724,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6751
+//line msg_parse.go:6719
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6842,7 +6810,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6837
+//line msg_parse.go:6805
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6943,7 +6911,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6938
+//line msg_parse.go:6906
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6983,7 +6951,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6978
+//line msg_parse.go:6946
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -7004,7 +6972,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6999
+//line msg_parse.go:6967
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7101,7 +7069,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7096
+//line msg_parse.go:7064
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7168,8 +7136,8 @@ tr286:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st763
+ {goto st246 } 
+	goto st753
 tr290:
 //line sip.rl:72
 
@@ -7178,7 +7146,7 @@ tr290:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st763
+	goto st753
 tr294:
 //line sip.rl:220
 
@@ -7187,14 +7155,14 @@ tr294:
 	addr = nil
 
 //line sip.rl:268
- {goto st280 } 
-	goto st763
-	st763:
+ {goto st270 } 
+	goto st753
+	st753:
 		if p++; p == pe {
-			goto _test_eof763
+			goto _test_eof753
 		}
-	st_case_763:
-//line msg_parse.go:7189
+	st_case_753:
+//line msg_parse.go:7157
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7408,7 +7376,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7403
+//line msg_parse.go:7371
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7450,7 +7418,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7445
+//line msg_parse.go:7413
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7512,7 +7480,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7507
+//line msg_parse.go:7475
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7576,7 +7544,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7571
+//line msg_parse.go:7539
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7608,7 +7576,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7603
+//line msg_parse.go:7571
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7668,7 +7636,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7663
+//line msg_parse.go:7631
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7736,7 +7704,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7731
+//line msg_parse.go:7699
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7792,7 +7760,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7787
+//line msg_parse.go:7755
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7822,7 +7790,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7817
+//line msg_parse.go:7785
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7859,7 +7827,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7854
+//line msg_parse.go:7822
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7887,7 +7855,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7882
+//line msg_parse.go:7850
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7915,7 +7883,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7910
+//line msg_parse.go:7878
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7943,7 +7911,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7938
+//line msg_parse.go:7906
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7971,7 +7939,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7966
+//line msg_parse.go:7934
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -7999,7 +7967,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7994
+//line msg_parse.go:7962
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -8016,7 +7984,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:8011
+//line msg_parse.go:7979
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8085,12 +8053,17 @@ tr333:
 			goto st232
 		}
 		switch {
-		case data[p] < 63:
-			if 36 <= data[p] && data[p] <= 59 {
+		case data[p] < 45:
+			if 36 <= data[p] && data[p] <= 43 {
 				goto st232
 			}
-		case data[p] > 91:
-			if 97 <= data[p] && data[p] <= 122 {
+		case data[p] > 58:
+			switch {
+			case data[p] > 91:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto st232
+				}
+			case data[p] >= 63:
 				goto st232
 			}
 		default:
@@ -8158,7 +8131,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8153
+//line msg_parse.go:8126
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8179,11 +8152,19 @@ tr337:
 			goto st242
 		}
 		goto st0
+tr338:
+//line sip.rl:211
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st234
 	st234:
 		if p++; p == pe {
 			goto _test_eof234
 		}
 	st_case_234:
+//line msg_parse.go:8159
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8223,8 +8204,8 @@ tr346:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st764
+ {goto st246 } 
+	goto st754
 tr350:
 //line sip.rl:72
 
@@ -8233,8 +8214,8 @@ tr350:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st764
-tr376:
+	goto st754
+tr356:
 //line sip.rl:220
 
 	*addrp = addr
@@ -8242,14 +8223,14 @@ tr376:
 	addr = nil
 
 //line sip.rl:268
- {goto st280 } 
-	goto st764
-	st764:
+ {goto st270 } 
+	goto st754
+	st754:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof754
 		}
-	st_case_764:
-//line msg_parse.go:8244
+	st_case_754:
+//line msg_parse.go:8225
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8284,11 +8265,19 @@ tr376:
 			goto st237
 		}
 		goto tr346
+tr339:
+//line sip.rl:211
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st238
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
 		}
 	st_case_238:
+//line msg_parse.go:8272
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8360,7 +8349,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8355
+//line msg_parse.go:8344
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8393,7 +8382,7 @@ tr341:
 			goto st238
 		}
 		goto st0
-tr338:
+tr340:
 //line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8405,73 +8394,69 @@ tr338:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8400
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr356
-		case 32:
+//line msg_parse.go:8389
+		if data[p] == 10 {
 			goto tr356
+		}
+		goto st0
+	st246:
+		if p++; p == pe {
+			goto _test_eof246
+		}
+	st_case_246:
+		switch data[p] {
 		case 33:
 			goto tr357
-		case 44:
-			goto tr338
-		case 59:
+		case 34:
 			goto tr358
+		case 37:
+			goto tr357
+		case 39:
+			goto tr357
 		case 60:
-			goto tr346
-		case 62:
-			goto tr346
-		case 92:
-			goto tr346
-		case 94:
-			goto tr346
-		case 96:
-			goto tr346
+			goto tr358
 		case 126:
 			goto tr357
-		case 269:
-			goto tr359
-		case 525:
-			goto tr360
 		}
 		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr346
+		case data[p] < 48:
+			switch {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr357
+				}
+			case data[p] >= 42:
+				goto tr357
 			}
-		case _widec > 35:
+		case data[p] > 57:
 			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr346
+			case data[p] < 95:
+				if 65 <= data[p] && data[p] <= 90 {
+					goto tr359
+				}
+			case data[p] > 96:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto tr359
 				}
-			case _widec >= 36:
+			default:
 				goto tr357
 			}
 		default:
-			goto tr346
+			goto tr357
 		}
 		goto st0
-tr356:
-//line sip.rl:211
+tr357:
+//line sip.rl:80
 
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
+	mark = p
 
-	goto st246
-	st246:
+	goto st247
+	st247:
 		if p++; p == pe {
-			goto _test_eof246
+			goto _test_eof247
 		}
-	st_case_246:
-//line msg_parse.go:8466
+	st_case_247:
+//line msg_parse.go:8451
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8481,48 +8466,48 @@ tr356:
 		}
 		switch _widec {
 		case 9:
-			goto st246
+			goto st248
 		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr362
-		case 269:
-			goto tr346
-		case 525:
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 126:
 			goto st247
+		case 525:
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr346
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr346
+			goto st247
 		}
 		goto st0
-tr362:
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st765
-	st765:
+	st248:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof248
 		}
-	st_case_765:
-//line msg_parse.go:8517
+	st_case_248:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8532,708 +8517,46 @@ tr362:
 		}
 		switch _widec {
 		case 9:
-			goto st238
+			goto st248
 		case 32:
-			goto st238
-		case 269:
-			goto tr350
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 60:
+			goto tr363
+		case 126:
+			goto st247
 		case 525:
-			goto st239
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr350
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr350
+			goto st247
 		}
 		goto st0
-tr360:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8556
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr362
-		}
-		goto tr346
-tr357:
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st766
-tr367:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st766
-	st766:
-		if p++; p == pe {
-			goto _test_eof766
-		}
-	st_case_766:
-//line msg_parse.go:8618
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr337
-		case 32:
-			goto tr337
-		case 33:
-			goto st232
-		case 44:
-			goto tr338
-		case 59:
-			goto tr339
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr340
-		case 525:
-			goto tr341
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
-tr339:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8675
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr366
-		case 32:
-			goto tr366
-		case 33:
-			goto tr367
-		case 44:
-			goto tr368
-		case 59:
-			goto tr339
-		case 60:
-			goto tr350
-		case 62:
-			goto tr350
-		case 92:
-			goto tr350
-		case 94:
-			goto tr350
-		case 96:
-			goto tr350
-		case 126:
-			goto tr367
-		case 269:
-			goto tr369
-		case 525:
-			goto tr370
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr350
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr350
-				}
-			case _widec >= 36:
-				goto tr367
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr366:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8741
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr372
-		case 59:
-			goto st238
-		case 269:
-			goto tr350
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr350
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr372:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st767
-	st767:
-		if p++; p == pe {
-			goto _test_eof767
-		}
-	st_case_767:
-//line msg_parse.go:8786
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr346
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr346
-			}
-		default:
-			goto tr346
-		}
-		goto st0
-tr370:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8825
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr372
-		case 59:
-			goto st238
-		}
-		goto tr350
-tr368:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st768
-	st768:
-		if p++; p == pe {
-			goto _test_eof768
-		}
-	st_case_768:
-//line msg_parse.go:8877
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr356
-		case 32:
-			goto tr356
-		case 33:
-			goto tr357
-		case 44:
-			goto tr338
-		case 59:
-			goto tr358
-		case 60:
-			goto tr346
-		case 62:
-			goto tr346
-		case 92:
-			goto tr346
-		case 94:
-			goto tr346
-		case 96:
-			goto tr346
-		case 126:
-			goto tr357
-		case 269:
-			goto tr359
-		case 525:
-			goto tr360
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr346
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr346
-				}
-			case _widec >= 36:
-				goto tr357
-			}
-		default:
-			goto tr346
-		}
-		goto st0
-tr358:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st769
-	st769:
-		if p++; p == pe {
-			goto _test_eof769
-		}
-	st_case_769:
-//line msg_parse.go:8956
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr366
-		case 32:
-			goto tr366
-		case 33:
-			goto tr367
-		case 44:
-			goto tr368
-		case 59:
-			goto tr339
-		case 60:
-			goto tr350
-		case 62:
-			goto tr350
-		case 92:
-			goto tr350
-		case 94:
-			goto tr350
-		case 96:
-			goto tr350
-		case 126:
-			goto tr367
-		case 269:
-			goto tr369
-		case 525:
-			goto tr370
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr350
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr350
-				}
-			case _widec >= 36:
-				goto tr367
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr359:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st770
-tr369:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st770
-	st770:
-		if p++; p == pe {
-			goto _test_eof770
-		}
-	st_case_770:
-//line msg_parse.go:9049
-		if data[p] == 10 {
-			goto tr376
-		}
-		goto st0
-tr340:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st255
-	st255:
-		if p++; p == pe {
-			goto _test_eof255
-		}
-	st_case_255:
-//line msg_parse.go:9066
-		if data[p] == 10 {
-			goto tr376
-		}
-		goto st0
-	st256:
-		if p++; p == pe {
-			goto _test_eof256
-		}
-	st_case_256:
-		switch data[p] {
-		case 33:
-			goto tr377
-		case 34:
-			goto tr378
-		case 37:
-			goto tr377
-		case 39:
-			goto tr377
-		case 60:
-			goto tr378
-		case 126:
-			goto tr377
-		}
-		switch {
-		case data[p] < 48:
-			switch {
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 46 {
-					goto tr377
-				}
-			case data[p] >= 42:
-				goto tr377
-			}
-		case data[p] > 57:
-			switch {
-			case data[p] < 95:
-				if 65 <= data[p] && data[p] <= 90 {
-					goto tr379
-				}
-			case data[p] > 96:
-				if 97 <= data[p] && data[p] <= 122 {
-					goto tr379
-				}
-			default:
-				goto tr377
-			}
-		default:
-			goto tr377
-		}
-		goto st0
-tr377:
-//line sip.rl:80
-
-	mark = p
-
-	goto st257
-	st257:
-		if p++; p == pe {
-			goto _test_eof257
-		}
-	st_case_257:
-//line msg_parse.go:9128
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-	st258:
-		if p++; p == pe {
-			goto _test_eof258
-		}
-	st_case_258:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 60:
-			goto tr383
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-tr378:
+tr358:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9245,8 +8568,8 @@ tr378:
 
 //line sip.rl:264
  {goto st188 } 
-	goto st771
-tr383:
+	goto st755
+tr363:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9258,8 +8581,8 @@ tr383:
 
 //line sip.rl:264
  {goto st188 } 
-	goto st771
-tr387:
+	goto st755
+tr367:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9271,91 +8594,91 @@ tr387:
 
 //line sip.rl:266
  {goto st229 } 
-	goto st771
-	st771:
+	goto st755
+	st755:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof755
 		}
-	st_case_771:
-//line msg_parse.go:9272
+	st_case_755:
+//line msg_parse.go:8595
 		goto st0
-	st259:
+	st249:
 		if p++; p == pe {
-			goto _test_eof259
+			goto _test_eof249
 		}
-	st_case_259:
+	st_case_249:
 		if data[p] == 10 {
-			goto st260
+			goto st250
 		}
 		goto st0
-	st260:
+	st250:
 		if p++; p == pe {
-			goto _test_eof260
+			goto _test_eof250
 		}
-	st_case_260:
+	st_case_250:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		}
 		goto st0
-	st261:
+	st251:
 		if p++; p == pe {
-			goto _test_eof261
+			goto _test_eof251
 		}
-	st_case_261:
+	st_case_251:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 60:
-			goto tr383
+			goto tr363
 		case 126:
-			goto st257
+			goto st247
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 42:
-				goto st257
+				goto st247
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 65:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st257
+			goto st247
 		}
 		goto st0
-tr379:
+tr359:
 //line sip.rl:80
 
 	mark = p
 
-	goto st262
-	st262:
+	goto st252
+	st252:
 		if p++; p == pe {
-			goto _test_eof262
+			goto _test_eof252
 		}
-	st_case_262:
-//line msg_parse.go:9350
+	st_case_252:
+//line msg_parse.go:8673
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9365,54 +8688,54 @@ tr379:
 		}
 		switch _widec {
 		case 9:
-			goto st258
+			goto st248
 		case 32:
-			goto st258
+			goto st248
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 42:
-			goto st257
+			goto st247
 		case 43:
-			goto st262
+			goto st252
 		case 58:
-			goto tr387
+			goto tr367
 		case 126:
-			goto st257
+			goto st247
 		case 525:
-			goto st259
+			goto st249
 		}
 		switch {
 		case _widec < 65:
 			switch {
 			case _widec > 46:
 				if 48 <= _widec && _widec <= 57 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 45:
-				goto st262
+				goto st252
 			}
 		case _widec > 90:
 			switch {
 			case _widec > 96:
 				if 97 <= _widec && _widec <= 122 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 95:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st262
+			goto st252
 		}
 		goto st0
-	st263:
+	st253:
 		if p++; p == pe {
-			goto _test_eof263
+			goto _test_eof253
 		}
-	st_case_263:
+	st_case_253:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9422,51 +8745,51 @@ tr379:
 		}
 		switch _widec {
 		case 9:
-			goto tr388
+			goto tr368
 		case 269:
-			goto tr394
+			goto tr374
 		case 525:
-			goto tr395
+			goto tr375
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr389
+					goto tr369
 				}
 			case _widec >= 32:
-				goto tr388
+				goto tr368
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr391
+					goto tr371
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr393
+					goto tr373
 				}
 			default:
-				goto tr392
+				goto tr372
 			}
 		default:
-			goto tr390
+			goto tr370
 		}
 		goto st0
-tr388:
+tr368:
 //line sip.rl:80
 
 	mark = p
 
-	goto st264
-	st264:
+	goto st254
+	st254:
 		if p++; p == pe {
-			goto _test_eof264
+			goto _test_eof254
 		}
-	st_case_264:
-//line msg_parse.go:9461
+	st_case_254:
+//line msg_parse.go:8784
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9476,136 +8799,136 @@ tr388:
 		}
 		switch _widec {
 		case 9:
-			goto st264
+			goto st254
 		case 269:
-			goto st270
+			goto st260
 		case 525:
-			goto st271
+			goto st261
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto st265
+					goto st255
 				}
 			case _widec >= 32:
-				goto st264
+				goto st254
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto st267
+					goto st257
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto st269
+					goto st259
 				}
 			default:
-				goto st268
+				goto st258
 			}
 		default:
-			goto st266
+			goto st256
 		}
 		goto st0
-tr389:
+tr369:
 //line sip.rl:80
 
 	mark = p
 
-	goto st265
-	st265:
+	goto st255
+	st255:
 		if p++; p == pe {
-			goto _test_eof265
+			goto _test_eof255
 		}
-	st_case_265:
-//line msg_parse.go:9515
+	st_case_255:
+//line msg_parse.go:8838
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st264
+			goto st254
 		}
 		goto st0
-tr390:
+tr370:
 //line sip.rl:80
 
 	mark = p
 
-	goto st266
-	st266:
+	goto st256
+	st256:
 		if p++; p == pe {
-			goto _test_eof266
+			goto _test_eof256
 		}
-	st_case_266:
-//line msg_parse.go:9531
+	st_case_256:
+//line msg_parse.go:8854
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st265
+			goto st255
 		}
 		goto st0
-tr391:
+tr371:
 //line sip.rl:80
 
 	mark = p
 
-	goto st267
-	st267:
+	goto st257
+	st257:
 		if p++; p == pe {
-			goto _test_eof267
+			goto _test_eof257
 		}
-	st_case_267:
-//line msg_parse.go:9547
+	st_case_257:
+//line msg_parse.go:8870
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st266
+			goto st256
 		}
 		goto st0
-tr392:
+tr372:
 //line sip.rl:80
 
 	mark = p
 
-	goto st268
-	st268:
+	goto st258
+	st258:
 		if p++; p == pe {
-			goto _test_eof268
+			goto _test_eof258
 		}
-	st_case_268:
-//line msg_parse.go:9563
+	st_case_258:
+//line msg_parse.go:8886
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st267
+			goto st257
 		}
 		goto st0
-tr393:
+tr373:
 //line sip.rl:80
 
 	mark = p
 
-	goto st269
-	st269:
+	goto st259
+	st259:
 		if p++; p == pe {
-			goto _test_eof269
+			goto _test_eof259
 		}
-	st_case_269:
-//line msg_parse.go:9579
+	st_case_259:
+//line msg_parse.go:8902
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st268
+			goto st258
 		}
 		goto st0
-tr394:
+tr374:
 //line sip.rl:80
 
 	mark = p
 
-	goto st270
-	st270:
+	goto st260
+	st260:
 		if p++; p == pe {
-			goto _test_eof270
+			goto _test_eof260
 		}
-	st_case_270:
-//line msg_parse.go:9595
+	st_case_260:
+//line msg_parse.go:8918
 		if data[p] == 10 {
-			goto tr404
+			goto tr384
 		}
 		goto st0
-tr404:
+tr384:
 //line sip.rl:186
 {
 	b := data[mark:p - 1]
@@ -9616,158 +8939,158 @@ tr404:
 	}
 }
 //line sip.rl:268
- {goto st280 } 
-	goto st772
-	st772:
+ {goto st270 } 
+	goto st756
+	st756:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof756
 		}
-	st_case_772:
-//line msg_parse.go:9618
+	st_case_756:
+//line msg_parse.go:8941
 		goto st0
-tr395:
+tr375:
 //line sip.rl:80
 
 	mark = p
 
-	goto st271
-	st271:
+	goto st261
+	st261:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof261
 		}
-	st_case_271:
-//line msg_parse.go:9631
+	st_case_261:
+//line msg_parse.go:8954
 		if data[p] == 10 {
-			goto st272
+			goto st262
 		}
 		goto st0
-	st272:
+	st262:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof262
 		}
-	st_case_272:
+	st_case_262:
 		switch data[p] {
 		case 9:
-			goto st264
+			goto st254
 		case 32:
-			goto st264
+			goto st254
 		}
 		goto st0
-	st273:
+	st263:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof263
 		}
-	st_case_273:
+	st_case_263:
 		switch data[p] {
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-	st274:
+	st264:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof264
 		}
-	st_case_274:
+	st_case_264:
 		switch data[p] {
 		case 9:
-			goto tr407
+			goto tr387
 		case 32:
-			goto tr407
+			goto tr387
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 58:
-			goto tr408
+			goto tr388
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-tr407:
+tr387:
 //line sip.rl:182
 
 	name = string(data[mark:p])
 
-	goto st275
-	st275:
+	goto st265
+	st265:
 		if p++; p == pe {
-			goto _test_eof275
+			goto _test_eof265
 		}
-	st_case_275:
-//line msg_parse.go:9741
+	st_case_265:
+//line msg_parse.go:9064
 		switch data[p] {
 		case 9:
-			goto st275
+			goto st265
 		case 32:
-			goto st275
+			goto st265
 		case 58:
-			goto st276
+			goto st266
 		}
 		goto st0
-tr408:
+tr388:
 //line sip.rl:182
 
 	name = string(data[mark:p])
 
-	goto st276
-	st276:
+	goto st266
+	st266:
 		if p++; p == pe {
-			goto _test_eof276
+			goto _test_eof266
 		}
-	st_case_276:
-//line msg_parse.go:9762
+	st_case_266:
+//line msg_parse.go:9085
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9777,24 +9100,24 @@ tr408:
 		}
 		switch _widec {
 		case 9:
-			goto st276
+			goto st266
 		case 32:
-			goto st276
+			goto st266
 		case 269:
-			goto tr411
+			goto tr391
 		case 525:
-			goto st277
+			goto st267
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr411
+				goto tr391
 			}
 		default:
-			goto tr411
+			goto tr391
 		}
 		goto st0
-tr411:
+tr391:
 //line sip.rl:544
 value=nil
 //line sip.rl:72
@@ -9803,53 +9126,53 @@ value=nil
 
 
 //line sip.rl:269
- {goto st263 } 
-	goto st773
-	st773:
+ {goto st253 } 
+	goto st757
+	st757:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof757
 		}
-	st_case_773:
-//line msg_parse.go:9805
+	st_case_757:
+//line msg_parse.go:9128
 		goto st0
-	st277:
+	st267:
 		if p++; p == pe {
-			goto _test_eof277
+			goto _test_eof267
 		}
-	st_case_277:
+	st_case_267:
 		if data[p] == 10 {
-			goto st278
+			goto st268
 		}
 		goto st0
-	st278:
+	st268:
 		if p++; p == pe {
-			goto _test_eof278
+			goto _test_eof268
 		}
-	st_case_278:
+	st_case_268:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
 		goto st0
-	st279:
+	st269:
 		if p++; p == pe {
-			goto _test_eof279
+			goto _test_eof269
 		}
-	st_case_279:
+	st_case_269:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
-		goto tr411
-	st280:
+		goto tr391
+	st270:
 		if p++; p == pe {
-			goto _test_eof280
+			goto _test_eof270
 		}
-	st_case_280:
+	st_case_270:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9859,40 +9182,40 @@ value=nil
 		}
 		switch _widec {
 		case 33:
-			goto tr415
+			goto tr395
 		case 37:
-			goto tr415
+			goto tr395
 		case 39:
-			goto tr415
+			goto tr395
 		case 126:
-			goto tr415
+			goto tr395
 		case 269:
-			goto st757
+			goto st747
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr415
+					goto tr395
 				}
 			case _widec >= 42:
-				goto tr415
+				goto tr395
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr415
+					goto tr395
 				}
 			case _widec >= 65:
-				goto tr415
+				goto tr395
 			}
 		default:
-			goto tr415
+			goto tr395
 		}
 		goto st0
-tr415:
+tr395:
 //line sip.rl:80
 
 	mark = p
@@ -9902,423 +9225,423 @@ tr415:
 	p--
 
 
-	goto st281
-	st281:
+	goto st271
+	st271:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof271
 		}
-	st_case_281:
-//line msg_parse.go:9903
+	st_case_271:
+//line msg_parse.go:9226
 		switch data[p] {
 		case 65:
-			goto st282
+			goto st272
 		case 66:
-			goto st363
+			goto st353
 		case 67:
-			goto st364
+			goto st354
 		case 68:
-			goto st459
+			goto st449
 		case 69:
-			goto st463
+			goto st453
 		case 70:
-			goto st489
+			goto st479
 		case 73:
-			goto st493
+			goto st483
 		case 75:
-			goto st504
+			goto st494
 		case 76:
-			goto st434
+			goto st424
 		case 77:
-			goto st505
+			goto st495
 		case 79:
-			goto st549
+			goto st539
 		case 80:
-			goto st561
+			goto st551
 		case 82:
-			goto st619
+			goto st609
 		case 83:
-			goto st679
+			goto st669
 		case 84:
-			goto st697
+			goto st687
 		case 85:
-			goto st707
+			goto st697
 		case 86:
-			goto st727
+			goto st717
 		case 87:
-			goto st735
+			goto st725
 		case 97:
-			goto st282
+			goto st272
 		case 98:
-			goto st363
+			goto st353
 		case 99:
-			goto st364
+			goto st354
 		case 100:
-			goto st459
+			goto st449
 		case 101:
-			goto st463
+			goto st453
 		case 102:
-			goto st489
+			goto st479
 		case 105:
-			goto st493
+			goto st483
 		case 107:
-			goto st504
+			goto st494
 		case 108:
-			goto st434
+			goto st424
 		case 109:
-			goto st505
+			goto st495
 		case 111:
-			goto st549
+			goto st539
 		case 112:
-			goto st561
+			goto st551
 		case 114:
-			goto st619
+			goto st609
 		case 115:
-			goto st679
+			goto st669
 		case 116:
-			goto st697
+			goto st687
 		case 117:
-			goto st707
+			goto st697
 		case 118:
-			goto st727
+			goto st717
 		case 119:
-			goto st735
+			goto st725
 		}
-		goto tr417
-	st282:
+		goto tr397
+	st272:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof272
 		}
-	st_case_282:
+	st_case_272:
 		switch data[p] {
 		case 9:
-			goto tr436
+			goto tr416
 		case 32:
-			goto tr436
+			goto tr416
 		case 58:
-			goto tr437
+			goto tr417
 		case 67:
-			goto st288
+			goto st278
 		case 76:
-			goto st317
+			goto st307
 		case 85:
-			goto st336
+			goto st326
 		case 99:
-			goto st288
+			goto st278
 		case 108:
-			goto st317
+			goto st307
 		case 117:
-			goto st336
+			goto st326
 		}
-		goto tr417
-tr436:
+		goto tr397
+tr416:
 //line sip.rl:462
 value=&msg.AcceptContact
-	goto st283
-tr451:
+	goto st273
+tr431:
 //line sip.rl:461
 value=&msg.Accept
-	goto st283
-tr470:
+	goto st273
+tr450:
 //line sip.rl:463
 value=&msg.AcceptEncoding
-	goto st283
-tr479:
+	goto st273
+tr459:
 //line sip.rl:464
 value=&msg.AcceptLanguage
-	goto st283
-tr490:
+	goto st273
+tr470:
 //line sip.rl:467
 value=&msg.AlertInfo
-	goto st283
-tr494:
+	goto st273
+tr474:
 //line sip.rl:465
 value=&msg.Allow
-	goto st283
-tr503:
+	goto st273
+tr483:
 //line sip.rl:466
 value=&msg.AllowEvents
-	goto st283
-tr523:
+	goto st273
+tr503:
 //line sip.rl:468
 value=&msg.AuthenticationInfo
-	goto st283
-tr533:
+	goto st273
+tr513:
 //line sip.rl:469
 value=&msg.Authorization
-	goto st283
-tr535:
+	goto st273
+tr515:
 //line sip.rl:486
 value=&msg.ReferredBy
-	goto st283
-tr565:
+	goto st273
+tr545:
 //line sip.rl:473
 value=&msg.CallInfo
-	goto st283
-tr598:
+	goto st273
+tr578:
 //line sip.rl:470
 value=&msg.ContentDisposition
-	goto st283
-tr607:
+	goto st273
+tr587:
 //line sip.rl:472
 value=&msg.ContentEncoding
-	goto st283
-tr617:
+	goto st273
+tr597:
 //line sip.rl:471
 value=&msg.ContentLanguage
-	goto st283
-tr652:
+	goto st273
+tr632:
 //line sip.rl:474
 value=&msg.Date
-	goto st283
-tr665:
+	goto st273
+tr645:
 //line sip.rl:475
 value=&msg.ErrorInfo
-	goto st283
-tr670:
+	goto st273
+tr650:
 //line sip.rl:476
 value=&msg.Event
-	goto st283
-tr699:
+	goto st273
+tr679:
 //line sip.rl:477
 value=&msg.InReplyTo
-	goto st283
-tr701:
+	goto st273
+tr681:
 //line sip.rl:491
 value=&msg.Supported
-	goto st283
-tr733:
+	goto st273
+tr713:
 //line sip.rl:479
 value=&msg.MIMEVersion
-	goto st283
-tr761:
+	goto st273
+tr741:
 //line sip.rl:480
 value=&msg.Organization
-	goto st283
-tr791:
+	goto st273
+tr771:
 //line sip.rl:481
 value=&msg.Priority
-	goto st283
-tr810:
+	goto st273
+tr790:
 //line sip.rl:482
 value=&msg.ProxyAuthenticate
-	goto st283
-tr820:
+	goto st273
+tr800:
 //line sip.rl:483
 value=&msg.ProxyAuthorization
-	goto st283
-tr828:
+	goto st273
+tr808:
 //line sip.rl:484
 value=&msg.ProxyRequire
-	goto st283
-tr830:
+	goto st273
+tr810:
 //line sip.rl:485
 value=&msg.ReferTo
-	goto st283
-tr880:
+	goto st273
+tr860:
 //line sip.rl:478
 value=&msg.ReplyTo
-	goto st283
-tr886:
+	goto st273
+tr866:
 //line sip.rl:487
 value=&msg.Require
-	goto st283
-tr896:
+	goto st273
+tr876:
 //line sip.rl:488
 value=&msg.RetryAfter
-	goto st283
-tr903:
+	goto st273
+tr883:
 //line sip.rl:490
 value=&msg.Subject
-	goto st283
-tr911:
+	goto st273
+tr891:
 //line sip.rl:489
 value=&msg.Server
-	goto st283
-tr935:
+	goto st273
+tr915:
 //line sip.rl:492
 value=&msg.Timestamp
-	goto st283
-tr948:
+	goto st273
+tr928:
 //line sip.rl:493
 value=&msg.Unsupported
-	goto st283
-tr958:
+	goto st273
+tr938:
 //line sip.rl:494
 value=&msg.UserAgent
-	goto st283
-tr975:
+	goto st273
+tr955:
 //line sip.rl:495
 value=&msg.Warning
-	goto st283
-tr991:
+	goto st273
+tr971:
 //line sip.rl:496
 value=&msg.WWWAuthenticate
-	goto st283
-	st283:
+	goto st273
+	st273:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof273
 		}
-	st_case_283:
-//line msg_parse.go:10154
+	st_case_273:
+//line msg_parse.go:9477
 		switch data[p] {
 		case 9:
-			goto st283
+			goto st273
 		case 32:
-			goto st283
+			goto st273
 		case 58:
-			goto st284
+			goto st274
 		}
 		goto st0
-tr437:
+tr417:
 //line sip.rl:462
 value=&msg.AcceptContact
-	goto st284
-tr453:
+	goto st274
+tr433:
 //line sip.rl:461
 value=&msg.Accept
-	goto st284
-tr471:
+	goto st274
+tr451:
 //line sip.rl:463
 value=&msg.AcceptEncoding
-	goto st284
-tr480:
+	goto st274
+tr460:
 //line sip.rl:464
 value=&msg.AcceptLanguage
-	goto st284
-tr491:
+	goto st274
+tr471:
 //line sip.rl:467
 value=&msg.AlertInfo
-	goto st284
-tr496:
+	goto st274
+tr476:
 //line sip.rl:465
 value=&msg.Allow
-	goto st284
-tr504:
+	goto st274
+tr484:
 //line sip.rl:466
 value=&msg.AllowEvents
-	goto st284
-tr524:
+	goto st274
+tr504:
 //line sip.rl:468
 value=&msg.AuthenticationInfo
-	goto st284
-tr534:
+	goto st274
+tr514:
 //line sip.rl:469
 value=&msg.Authorization
-	goto st284
-tr536:
+	goto st274
+tr516:
 //line sip.rl:486
 value=&msg.ReferredBy
-	goto st284
-tr566:
+	goto st274
+tr546:
 //line sip.rl:473
 value=&msg.CallInfo
-	goto st284
-tr599:
+	goto st274
+tr579:
 //line sip.rl:470
 value=&msg.ContentDisposition
-	goto st284
-tr608:
+	goto st274
+tr588:
 //line sip.rl:472
 value=&msg.ContentEncoding
-	goto st284
-tr618:
+	goto st274
+tr598:
 //line sip.rl:471
 value=&msg.ContentLanguage
-	goto st284
-tr653:
+	goto st274
+tr633:
 //line sip.rl:474
 value=&msg.Date
-	goto st284
-tr666:
+	goto st274
+tr646:
 //line sip.rl:475
 value=&msg.ErrorInfo
-	goto st284
-tr671:
+	goto st274
+tr651:
 //line sip.rl:476
 value=&msg.Event
-	goto st284
-tr700:
+	goto st274
+tr680:
 //line sip.rl:477
 value=&msg.InReplyTo
-	goto st284
-tr702:
+	goto st274
+tr682:
 //line sip.rl:491
 value=&msg.Supported
-	goto st284
-tr734:
+	goto st274
+tr714:
 //line sip.rl:479
 value=&msg.MIMEVersion
-	goto st284
-tr762:
+	goto st274
+tr742:
 //line sip.rl:480
 value=&msg.Organization
-	goto st284
-tr792:
+	goto st274
+tr772:
 //line sip.rl:481
 value=&msg.Priority
-	goto st284
-tr811:
+	goto st274
+tr791:
 //line sip.rl:482
 value=&msg.ProxyAuthenticate
-	goto st284
-tr821:
+	goto st274
+tr801:
 //line sip.rl:483
 value=&msg.ProxyAuthorization
-	goto st284
-tr829:
+	goto st274
+tr809:
 //line sip.rl:484
 value=&msg.ProxyRequire
-	goto st284
-tr831:
+	goto st274
+tr811:
 //line sip.rl:485
 value=&msg.ReferTo
-	goto st284
-tr881:
+	goto st274
+tr861:
 //line sip.rl:478
 value=&msg.ReplyTo
-	goto st284
-tr887:
+	goto st274
+tr867:
 //line sip.rl:487
 value=&msg.Require
-	goto st284
-tr897:
+	goto st274
+tr877:
 //line sip.rl:488
 value=&msg.RetryAfter
-	goto st284
-tr904:
+	goto st274
+tr884:
 //line sip.rl:490
 value=&msg.Subject
-	goto st284
-tr912:
+	goto st274
+tr892:
 //line sip.rl:489
 value=&msg.Server
-	goto st284
-tr936:
+	goto st274
+tr916:
 //line sip.rl:492
 value=&msg.Timestamp
-	goto st284
-tr949:
+	goto st274
+tr929:
 //line sip.rl:493
 value=&msg.Unsupported
-	goto st284
-tr959:
+	goto st274
+tr939:
 //line sip.rl:494
 value=&msg.UserAgent
-	goto st284
-tr976:
+	goto st274
+tr956:
 //line sip.rl:495
 value=&msg.Warning
-	goto st284
-tr992:
+	goto st274
+tr972:
 //line sip.rl:496
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st274
+	st274:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof274
 		}
-	st_case_284:
-//line msg_parse.go:10313
+	st_case_274:
+//line msg_parse.go:9636
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10328,37 +9651,37 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st284
+			goto st274
 		case 32:
-			goto st284
+			goto st274
 		case 269:
-			goto tr443
+			goto tr423
 		case 525:
-			goto st285
+			goto st275
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr443
+				goto tr423
 			}
 		default:
-			goto tr443
+			goto tr423
 		}
 		goto st0
-tr560:
+tr540:
 //line sip.rl:268
- {goto st280 } 
-	goto st774
-tr443:
+ {goto st270 } 
+	goto st758
+tr423:
 //line sip.rl:72
 
 	p--
 
 
 //line sip.rl:269
- {goto st263 } 
-	goto st774
-tr542:
+ {goto st253 } 
+	goto st758
+tr522:
 //line sip.rl:72
 
 	p--
@@ -10366,8 +9689,8 @@ tr542:
 
 //line sip.rl:267
  {goto st34 } 
-	goto st774
-tr577:
+	goto st758
+tr557:
 //line sip.rl:546
 value=nil
 //line sip.rl:72
@@ -10376,9 +9699,9 @@ value=nil
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st774
-tr963:
+ {goto st246 } 
+	goto st758
+tr943:
 //line sip.rl:141
 
 	via = new(Via)
@@ -10390,53 +9713,185 @@ tr963:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st774
-tr993:
+	goto st758
+tr973:
 //line sip.rl:76
 
-	{p++; cs = 774; goto _out }
+	{p++; cs = 758; goto _out }
 
-	goto st774
-	st774:
+	goto st758
+	st758:
+		if p++; p == pe {
+			goto _test_eof758
+		}
+	st_case_758:
+//line msg_parse.go:9720
+		goto st0
+	st275:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof275
+		}
+	st_case_275:
+		if data[p] == 10 {
+			goto st276
+		}
+		goto st0
+	st276:
+		if p++; p == pe {
+			goto _test_eof276
+		}
+	st_case_276:
+		switch data[p] {
+		case 9:
+			goto st277
+		case 32:
+			goto st277
 		}
-	st_case_774:
-//line msg_parse.go:10397
 		goto st0
+	st277:
+		if p++; p == pe {
+			goto _test_eof277
+		}
+	st_case_277:
+		switch data[p] {
+		case 9:
+			goto st277
+		case 32:
+			goto st277
+		}
+		goto tr423
+	st278:
+		if p++; p == pe {
+			goto _test_eof278
+		}
+	st_case_278:
+		switch data[p] {
+		case 67:
+			goto st279
+		case 99:
+			goto st279
+		}
+		goto tr397
+	st279:
+		if p++; p == pe {
+			goto _test_eof279
+		}
+	st_case_279:
+		switch data[p] {
+		case 69:
+			goto st280
+		case 101:
+			goto st280
+		}
+		goto tr397
+	st280:
+		if p++; p == pe {
+			goto _test_eof280
+		}
+	st_case_280:
+		switch data[p] {
+		case 80:
+			goto st281
+		case 112:
+			goto st281
+		}
+		goto tr397
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		switch data[p] {
+		case 84:
+			goto st282
+		case 116:
+			goto st282
+		}
+		goto tr397
+	st282:
+		if p++; p == pe {
+			goto _test_eof282
+		}
+	st_case_282:
+		switch data[p] {
+		case 9:
+			goto tr431
+		case 32:
+			goto tr431
+		case 45:
+			goto st283
+		case 58:
+			goto tr433
+		}
+		goto tr397
+	st283:
+		if p++; p == pe {
+			goto _test_eof283
+		}
+	st_case_283:
+		switch data[p] {
+		case 67:
+			goto st284
+		case 69:
+			goto st291
+		case 76:
+			goto st299
+		case 99:
+			goto st284
+		case 101:
+			goto st291
+		case 108:
+			goto st299
+		}
+		goto tr397
+	st284:
+		if p++; p == pe {
+			goto _test_eof284
+		}
+	st_case_284:
+		switch data[p] {
+		case 79:
+			goto st285
+		case 111:
+			goto st285
+		}
+		goto tr397
 	st285:
 		if p++; p == pe {
 			goto _test_eof285
 		}
 	st_case_285:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st286
+		case 110:
 			goto st286
 		}
-		goto st0
+		goto tr397
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
 		switch data[p] {
-		case 9:
+		case 84:
 			goto st287
-		case 32:
+		case 116:
 			goto st287
 		}
-		goto st0
+		goto tr397
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 9:
-			goto st287
-		case 32:
-			goto st287
+		case 65:
+			goto st288
+		case 97:
+			goto st288
 		}
-		goto tr443
+		goto tr397
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
@@ -10448,422 +9903,416 @@ tr993:
 		case 99:
 			goto st289
 		}
-		goto tr417
+		goto tr397
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st290
-		case 101:
+		case 116:
 			goto st290
 		}
-		goto tr417
+		goto tr397
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 80:
-			goto st291
-		case 112:
-			goto st291
+		case 9:
+			goto tr416
+		case 32:
+			goto tr416
+		case 58:
+			goto tr417
 		}
-		goto tr417
+		goto tr397
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st292
-		case 116:
+		case 110:
 			goto st292
 		}
-		goto tr417
+		goto tr397
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 45:
+		case 67:
+			goto st293
+		case 99:
 			goto st293
-		case 58:
-			goto tr453
 		}
-		goto tr417
+		goto tr397
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st294
-		case 69:
-			goto st301
-		case 76:
-			goto st309
-		case 99:
+		case 111:
 			goto st294
-		case 101:
-			goto st301
-		case 108:
-			goto st309
 		}
-		goto tr417
+		goto tr397
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st295
-		case 111:
+		case 100:
 			goto st295
 		}
-		goto tr417
+		goto tr397
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st296
-		case 110:
+		case 105:
 			goto st296
 		}
-		goto tr417
+		goto tr397
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st297
-		case 116:
+		case 110:
 			goto st297
 		}
-		goto tr417
+		goto tr397
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st298
-		case 97:
+		case 103:
 			goto st298
 		}
-		goto tr417
+		goto tr397
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 67:
-			goto st299
-		case 99:
-			goto st299
+		case 9:
+			goto tr450
+		case 32:
+			goto tr450
+		case 58:
+			goto tr451
 		}
-		goto tr417
+		goto tr397
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st300
-		case 116:
+		case 97:
 			goto st300
 		}
-		goto tr417
+		goto tr397
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 9:
-			goto tr436
-		case 32:
-			goto tr436
-		case 58:
-			goto tr437
+		case 78:
+			goto st301
+		case 110:
+			goto st301
 		}
-		goto tr417
+		goto tr397
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st302
-		case 110:
+		case 103:
 			goto st302
 		}
-		goto tr417
+		goto tr397
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st303
-		case 99:
+		case 117:
 			goto st303
 		}
-		goto tr417
+		goto tr397
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st304
-		case 111:
+		case 97:
 			goto st304
 		}
-		goto tr417
+		goto tr397
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 68:
+		case 71:
 			goto st305
-		case 100:
+		case 103:
 			goto st305
 		}
-		goto tr417
+		goto tr397
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st306
-		case 105:
+		case 101:
 			goto st306
 		}
-		goto tr417
+		goto tr397
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 78:
-			goto st307
-		case 110:
-			goto st307
+		case 9:
+			goto tr459
+		case 32:
+			goto tr459
+		case 58:
+			goto tr460
 		}
-		goto tr417
+		goto tr397
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st308
-		case 103:
+		case 76:
+			goto st316
+		case 101:
 			goto st308
+		case 108:
+			goto st316
 		}
-		goto tr417
+		goto tr397
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 82:
+			goto st309
+		case 114:
+			goto st309
 		}
-		goto tr417
+		goto tr397
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st310
-		case 97:
+		case 116:
 			goto st310
 		}
-		goto tr417
+		goto tr397
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
-		switch data[p] {
-		case 78:
-			goto st311
-		case 110:
+		if data[p] == 45 {
 			goto st311
 		}
-		goto tr417
+		goto tr397
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st312
-		case 103:
+		case 105:
 			goto st312
 		}
-		goto tr417
+		goto tr397
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 85:
+		case 78:
 			goto st313
-		case 117:
+		case 110:
 			goto st313
 		}
-		goto tr417
+		goto tr397
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 65:
+		case 70:
 			goto st314
-		case 97:
+		case 102:
 			goto st314
 		}
-		goto tr417
+		goto tr397
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 71:
+		case 79:
 			goto st315
-		case 103:
+		case 111:
 			goto st315
 		}
-		goto tr417
+		goto tr397
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 69:
-			goto st316
-		case 101:
-			goto st316
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr417
+		goto tr397
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr479
-		case 32:
-			goto tr479
-		case 58:
-			goto tr480
+		case 79:
+			goto st317
+		case 111:
+			goto st317
 		}
-		goto tr417
+		goto tr397
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 69:
+		case 87:
 			goto st318
-		case 76:
-			goto st326
-		case 101:
+		case 119:
 			goto st318
-		case 108:
-			goto st326
 		}
-		goto tr417
+		goto tr397
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 82:
-			goto st319
-		case 114:
+		case 9:
+			goto tr474
+		case 32:
+			goto tr474
+		case 45:
 			goto st319
+		case 58:
+			goto tr476
 		}
-		goto tr417
+		goto tr397
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st320
-		case 116:
+		case 101:
 			goto st320
 		}
-		goto tr417
+		goto tr397
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
-		if data[p] == 45 {
+		switch data[p] {
+		case 86:
+			goto st321
+		case 118:
 			goto st321
 		}
-		goto tr417
+		goto tr397
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st322
-		case 105:
+		case 101:
 			goto st322
 		}
-		goto tr417
+		goto tr397
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
@@ -10875,31 +10324,31 @@ tr993:
 		case 110:
 			goto st323
 		}
-		goto tr417
+		goto tr397
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 70:
+		case 84:
 			goto st324
-		case 102:
+		case 116:
 			goto st324
 		}
-		goto tr417
+		goto tr397
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st325
-		case 111:
+		case 115:
 			goto st325
 		}
-		goto tr417
+		goto tr397
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
@@ -10907,251 +10356,244 @@ tr993:
 	st_case_325:
 		switch data[p] {
 		case 9:
-			goto tr490
+			goto tr483
 		case 32:
-			goto tr490
+			goto tr483
 		case 58:
-			goto tr491
+			goto tr484
 		}
-		goto tr417
+		goto tr397
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st327
-		case 111:
+		case 116:
 			goto st327
 		}
-		goto tr417
+		goto tr397
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 87:
+		case 72:
 			goto st328
-		case 119:
+		case 104:
 			goto st328
 		}
-		goto tr417
+		goto tr397
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 9:
-			goto tr494
-		case 32:
-			goto tr494
-		case 45:
+		case 69:
 			goto st329
-		case 58:
-			goto tr496
+		case 79:
+			goto st344
+		case 101:
+			goto st329
+		case 111:
+			goto st344
 		}
-		goto tr417
+		goto tr397
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st330
-		case 101:
+		case 110:
 			goto st330
 		}
-		goto tr417
+		goto tr397
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 86:
+		case 84:
 			goto st331
-		case 118:
+		case 116:
 			goto st331
 		}
-		goto tr417
+		goto tr397
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st332
-		case 101:
+		case 105:
 			goto st332
 		}
-		goto tr417
+		goto tr397
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st333
-		case 110:
+		case 99:
 			goto st333
 		}
-		goto tr417
+		goto tr397
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st334
-		case 116:
+		case 97:
 			goto st334
 		}
-		goto tr417
+		goto tr397
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st335
-		case 115:
+		case 116:
 			goto st335
 		}
-		goto tr417
+		goto tr397
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 73:
+			goto st336
+		case 105:
+			goto st336
 		}
-		goto tr417
+		goto tr397
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st337
-		case 116:
+		case 111:
 			goto st337
 		}
-		goto tr417
+		goto tr397
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st338
-		case 104:
+		case 110:
 			goto st338
 		}
-		goto tr417
+		goto tr397
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
-		switch data[p] {
-		case 69:
-			goto st339
-		case 79:
-			goto st354
-		case 101:
+		if data[p] == 45 {
 			goto st339
-		case 111:
-			goto st354
 		}
-		goto tr417
+		goto tr397
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st340
-		case 110:
+		case 105:
 			goto st340
 		}
-		goto tr417
+		goto tr397
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st341
-		case 116:
+		case 110:
 			goto st341
 		}
-		goto tr417
+		goto tr397
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st342
-		case 105:
+		case 102:
 			goto st342
 		}
-		goto tr417
+		goto tr397
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st343
-		case 99:
+		case 111:
 			goto st343
 		}
-		goto tr417
+		goto tr397
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 65:
-			goto st344
-		case 97:
-			goto st344
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr417
+		goto tr397
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st345
-		case 116:
+		case 114:
 			goto st345
 		}
-		goto tr417
+		goto tr397
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
@@ -11163,40 +10605,43 @@ tr993:
 		case 105:
 			goto st346
 		}
-		goto tr417
+		goto tr397
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 79:
+		case 90:
 			goto st347
-		case 111:
+		case 122:
 			goto st347
 		}
-		goto tr417
+		goto tr397
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st348
-		case 110:
+		case 97:
 			goto st348
 		}
-		goto tr417
+		goto tr397
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st349
+		case 116:
 			goto st349
 		}
-		goto tr417
+		goto tr397
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
@@ -11208,43 +10653,45 @@ tr993:
 		case 105:
 			goto st350
 		}
-		goto tr417
+		goto tr397
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st351
-		case 110:
+		case 111:
 			goto st351
 		}
-		goto tr417
+		goto tr397
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st352
-		case 102:
+		case 110:
 			goto st352
 		}
-		goto tr417
+		goto tr397
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 79:
-			goto st353
-		case 111:
-			goto st353
+		case 9:
+			goto tr513
+		case 32:
+			goto tr513
+		case 58:
+			goto tr514
 		}
-		goto tr417
+		goto tr397
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -11252,182 +10699,58 @@ tr993:
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr523
+			goto tr515
 		case 32:
-			goto tr523
+			goto tr515
 		case 58:
-			goto tr524
+			goto tr516
 		}
-		goto tr417
+		goto tr397
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
 		}
 	st_case_354:
 		switch data[p] {
-		case 82:
+		case 9:
 			goto st355
-		case 114:
+		case 32:
 			goto st355
-		}
-		goto tr417
-	st355:
-		if p++; p == pe {
-			goto _test_eof355
-		}
-	st_case_355:
-		switch data[p] {
-		case 73:
-			goto st356
-		case 105:
+		case 58:
 			goto st356
-		}
-		goto tr417
-	st356:
-		if p++; p == pe {
-			goto _test_eof356
-		}
-	st_case_356:
-		switch data[p] {
-		case 90:
-			goto st357
-		case 122:
-			goto st357
-		}
-		goto tr417
-	st357:
-		if p++; p == pe {
-			goto _test_eof357
-		}
-	st_case_357:
-		switch data[p] {
 		case 65:
-			goto st358
-		case 97:
-			goto st358
-		}
-		goto tr417
-	st358:
-		if p++; p == pe {
-			goto _test_eof358
-		}
-	st_case_358:
-		switch data[p] {
-		case 84:
-			goto st359
-		case 116:
-			goto st359
-		}
-		goto tr417
-	st359:
-		if p++; p == pe {
-			goto _test_eof359
-		}
-	st_case_359:
-		switch data[p] {
-		case 73:
-			goto st360
-		case 105:
 			goto st360
-		}
-		goto tr417
-	st360:
-		if p++; p == pe {
-			goto _test_eof360
-		}
-	st_case_360:
-		switch data[p] {
-		case 79:
-			goto st361
-		case 111:
-			goto st361
-		}
-		goto tr417
-	st361:
-		if p++; p == pe {
-			goto _test_eof361
-		}
-	st_case_361:
-		switch data[p] {
-		case 78:
-			goto st362
-		case 110:
-			goto st362
-		}
-		goto tr417
-	st362:
-		if p++; p == pe {
-			goto _test_eof362
-		}
-	st_case_362:
-		switch data[p] {
-		case 9:
-			goto tr533
-		case 32:
-			goto tr533
-		case 58:
-			goto tr534
-		}
-		goto tr417
-	st363:
-		if p++; p == pe {
-			goto _test_eof363
-		}
-	st_case_363:
-		switch data[p] {
-		case 9:
-			goto tr535
-		case 32:
-			goto tr535
-		case 58:
-			goto tr536
-		}
-		goto tr417
-	st364:
-		if p++; p == pe {
-			goto _test_eof364
-		}
-	st_case_364:
-		switch data[p] {
-		case 9:
-			goto st365
-		case 32:
-			goto st365
-		case 58:
-			goto st366
-		case 65:
-			goto st370
 		case 79:
-			goto st388
+			goto st378
 		case 83:
-			goto st445
+			goto st435
 		case 97:
-			goto st370
+			goto st360
 		case 111:
-			goto st388
+			goto st378
 		case 115:
-			goto st445
+			goto st435
 		}
-		goto tr417
-	st365:
+		goto tr397
+	st355:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof355
 		}
-	st_case_365:
+	st_case_355:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st355
 		case 32:
-			goto st365
+			goto st355
 		case 58:
-			goto st366
+			goto st356
 		}
 		goto st0
-	st366:
+	st356:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof356
 		}
-	st_case_366:
+	st_case_356:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11437,150 +10760,150 @@ tr993:
 		}
 		switch _widec {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 269:
-			goto tr542
+			goto tr522
 		case 525:
-			goto st367
+			goto st357
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr542
+				goto tr522
 			}
 		default:
-			goto tr542
+			goto tr522
 		}
 		goto st0
-	st367:
+	st357:
 		if p++; p == pe {
-			goto _test_eof367
+			goto _test_eof357
 		}
-	st_case_367:
+	st_case_357:
 		if data[p] == 10 {
-			goto st368
+			goto st358
 		}
 		goto st0
-	st368:
+	st358:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof358
 		}
-	st_case_368:
+	st_case_358:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st359
 		case 32:
-			goto st369
+			goto st359
 		}
 		goto st0
-	st369:
+	st359:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof359
 		}
-	st_case_369:
+	st_case_359:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st359
 		case 32:
-			goto st369
+			goto st359
 		}
-		goto tr542
-	st370:
+		goto tr522
+	st360:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof360
 		}
-	st_case_370:
+	st_case_360:
 		switch data[p] {
 		case 76:
-			goto st371
+			goto st361
 		case 108:
-			goto st371
+			goto st361
 		}
-		goto tr417
-	st371:
+		goto tr397
+	st361:
 		if p++; p == pe {
-			goto _test_eof371
+			goto _test_eof361
 		}
-	st_case_371:
+	st_case_361:
 		switch data[p] {
 		case 76:
-			goto st372
+			goto st362
 		case 108:
-			goto st372
+			goto st362
 		}
-		goto tr417
-	st372:
+		goto tr397
+	st362:
 		if p++; p == pe {
-			goto _test_eof372
+			goto _test_eof362
 		}
-	st_case_372:
+	st_case_362:
 		if data[p] == 45 {
-			goto st373
+			goto st363
 		}
-		goto tr417
-	st373:
+		goto tr397
+	st363:
 		if p++; p == pe {
-			goto _test_eof373
+			goto _test_eof363
 		}
-	st_case_373:
+	st_case_363:
 		switch data[p] {
 		case 73:
-			goto st374
+			goto st364
 		case 105:
-			goto st374
+			goto st364
 		}
-		goto tr417
-	st374:
+		goto tr397
+	st364:
 		if p++; p == pe {
-			goto _test_eof374
+			goto _test_eof364
 		}
-	st_case_374:
+	st_case_364:
 		switch data[p] {
 		case 68:
-			goto st375
+			goto st365
 		case 78:
-			goto st385
-		case 100:
 			goto st375
+		case 100:
+			goto st365
 		case 110:
-			goto st385
+			goto st375
 		}
-		goto tr417
-	st375:
+		goto tr397
+	st365:
 		if p++; p == pe {
-			goto _test_eof375
+			goto _test_eof365
 		}
-	st_case_375:
+	st_case_365:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st366
 		case 32:
-			goto st376
+			goto st366
 		case 58:
-			goto st377
+			goto st367
 		}
-		goto tr417
-	st376:
+		goto tr397
+	st366:
 		if p++; p == pe {
-			goto _test_eof376
+			goto _test_eof366
 		}
-	st_case_376:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st366
 		case 32:
-			goto st376
+			goto st366
 		case 58:
-			goto st377
+			goto st367
 		}
 		goto st0
-	st377:
+	st367:
 		if p++; p == pe {
-			goto _test_eof377
+			goto _test_eof367
 		}
-	st_case_377:
+	st_case_367:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11590,59 +10913,59 @@ tr993:
 		}
 		switch _widec {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		case 525:
-			goto st382
+			goto st372
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-tr554:
+tr534:
 //line sip.rl:80
 
 	mark = p
 
-	goto st378
-	st378:
+	goto st368
+	st368:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof368
 		}
-	st_case_378:
-//line msg_parse.go:11637
+	st_case_368:
+//line msg_parse.go:10960
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11652,88 +10975,88 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st378
+			goto st368
 		case 60:
-			goto st378
+			goto st368
 		case 64:
-			goto st379
+			goto st369
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st378
+					goto st368
 				}
 			case _widec >= 33:
-				goto st378
+				goto st368
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st378
+					goto st368
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st378
+					goto st368
 				}
 			default:
-				goto st378
+				goto st368
 			}
 		default:
-			goto st378
+			goto st368
 		}
 		goto st0
-	st379:
+	st369:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof369
 		}
-	st_case_379:
+	st_case_369:
 		switch data[p] {
 		case 37:
-			goto st380
+			goto st370
 		case 60:
-			goto st380
+			goto st370
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st380
+					goto st370
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st380
+					goto st370
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		default:
-			goto st380
+			goto st370
 		}
 		goto st0
-	st380:
+	st370:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof370
 		}
-	st_case_380:
+	st_case_370:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11743,325 +11066,325 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st380
+			goto st370
 		case 60:
-			goto st380
+			goto st370
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st380
+					goto st370
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st380
+					goto st370
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		default:
-			goto st380
+			goto st370
 		}
 		goto st0
-tr558:
+tr538:
 //line sip.rl:226
 
 	msg.CallID = string(data[mark:p])
 
-	goto st381
-tr644:
+	goto st371
+tr624:
 //line sip.rl:244
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st381
-	st381:
+	goto st371
+	st371:
 		if p++; p == pe {
-			goto _test_eof381
+			goto _test_eof371
 		}
-	st_case_381:
-//line msg_parse.go:11792
+	st_case_371:
+//line msg_parse.go:11115
 		if data[p] == 10 {
-			goto tr560
+			goto tr540
 		}
 		goto st0
-	st382:
+	st372:
 		if p++; p == pe {
-			goto _test_eof382
+			goto _test_eof372
 		}
-	st_case_382:
+	st_case_372:
 		if data[p] == 10 {
-			goto st383
+			goto st373
 		}
 		goto st0
-	st383:
+	st373:
 		if p++; p == pe {
-			goto _test_eof383
+			goto _test_eof373
 		}
-	st_case_383:
+	st_case_373:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st374
 		case 32:
-			goto st384
+			goto st374
 		}
 		goto st0
-	st384:
+	st374:
 		if p++; p == pe {
-			goto _test_eof384
+			goto _test_eof374
 		}
-	st_case_384:
+	st_case_374:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st374
 		case 32:
-			goto st384
+			goto st374
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-	st385:
+	st375:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof375
 		}
-	st_case_385:
+	st_case_375:
 		switch data[p] {
 		case 70:
-			goto st386
+			goto st376
 		case 102:
-			goto st386
+			goto st376
 		}
-		goto tr417
-	st386:
+		goto tr397
+	st376:
 		if p++; p == pe {
-			goto _test_eof386
+			goto _test_eof376
 		}
-	st_case_386:
+	st_case_376:
 		switch data[p] {
 		case 79:
-			goto st387
+			goto st377
 		case 111:
-			goto st387
+			goto st377
 		}
-		goto tr417
-	st387:
+		goto tr397
+	st377:
 		if p++; p == pe {
-			goto _test_eof387
+			goto _test_eof377
 		}
-	st_case_387:
+	st_case_377:
 		switch data[p] {
 		case 9:
-			goto tr565
+			goto tr545
 		case 32:
-			goto tr565
+			goto tr545
 		case 58:
-			goto tr566
+			goto tr546
 		}
-		goto tr417
-	st388:
+		goto tr397
+	st378:
 		if p++; p == pe {
-			goto _test_eof388
+			goto _test_eof378
 		}
-	st_case_388:
+	st_case_378:
 		switch data[p] {
 		case 78:
-			goto st389
+			goto st379
 		case 110:
-			goto st389
+			goto st379
 		}
-		goto tr417
-	st389:
+		goto tr397
+	st379:
 		if p++; p == pe {
-			goto _test_eof389
+			goto _test_eof379
 		}
-	st_case_389:
+	st_case_379:
 		switch data[p] {
 		case 84:
-			goto st390
+			goto st380
 		case 116:
-			goto st390
+			goto st380
 		}
-		goto tr417
-	st390:
+		goto tr397
+	st380:
 		if p++; p == pe {
-			goto _test_eof390
+			goto _test_eof380
 		}
-	st_case_390:
+	st_case_380:
 		switch data[p] {
 		case 65:
-			goto st391
+			goto st381
 		case 69:
-			goto st399
+			goto st389
 		case 97:
-			goto st391
+			goto st381
 		case 101:
-			goto st399
+			goto st389
 		}
-		goto tr417
-	st391:
+		goto tr397
+	st381:
 		if p++; p == pe {
-			goto _test_eof391
+			goto _test_eof381
 		}
-	st_case_391:
+	st_case_381:
 		switch data[p] {
 		case 67:
-			goto st392
+			goto st382
 		case 99:
-			goto st392
+			goto st382
 		}
-		goto tr417
-	st392:
+		goto tr397
+	st382:
 		if p++; p == pe {
-			goto _test_eof392
+			goto _test_eof382
 		}
-	st_case_392:
+	st_case_382:
 		switch data[p] {
 		case 84:
-			goto st393
+			goto st383
 		case 116:
-			goto st393
+			goto st383
 		}
-		goto tr417
-	st393:
+		goto tr397
+	st383:
 		if p++; p == pe {
-			goto _test_eof393
+			goto _test_eof383
 		}
-	st_case_393:
+	st_case_383:
 		switch data[p] {
 		case 9:
-			goto tr573
+			goto tr553
 		case 32:
-			goto tr573
+			goto tr553
 		case 58:
-			goto tr574
+			goto tr554
 		}
-		goto tr417
-tr573:
+		goto tr397
+tr553:
 //line sip.rl:448
 addrp=lastAddr(&msg.Contact)
-	goto st394
-tr684:
+	goto st384
+tr664:
 //line sip.rl:449
 addrp=lastAddr(&msg.From)
-	goto st394
-tr782:
+	goto st384
+tr762:
 //line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st394
-tr849:
+	goto st384
+tr829:
 //line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
-	goto st394
-tr873:
+	goto st384
+tr853:
 //line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st394
-tr901:
+	goto st384
+tr881:
 //line sip.rl:453
 addrp=lastAddr(&msg.Route)
-	goto st394
-tr924:
+	goto st384
+tr904:
 //line sip.rl:454
 addrp=lastAddr(&msg.To)
-	goto st394
-	st394:
+	goto st384
+	st384:
 		if p++; p == pe {
-			goto _test_eof394
+			goto _test_eof384
 		}
-	st_case_394:
-//line msg_parse.go:12013
+	st_case_384:
+//line msg_parse.go:11336
 		switch data[p] {
 		case 9:
-			goto st394
+			goto st384
 		case 32:
-			goto st394
+			goto st384
 		case 58:
-			goto st395
+			goto st385
 		}
 		goto st0
-tr574:
+tr554:
 //line sip.rl:448
 addrp=lastAddr(&msg.Contact)
-	goto st395
-tr685:
+	goto st385
+tr665:
 //line sip.rl:449
 addrp=lastAddr(&msg.From)
-	goto st395
-tr783:
+	goto st385
+tr763:
 //line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr850:
+	goto st385
+tr830:
 //line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr874:
+	goto st385
+tr854:
 //line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr902:
+	goto st385
+tr882:
 //line sip.rl:453
 addrp=lastAddr(&msg.Route)
-	goto st395
-tr925:
+	goto st385
+tr905:
 //line sip.rl:454
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st385
+	st385:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof385
 		}
-	st_case_395:
-//line msg_parse.go:12056
+	st_case_385:
+//line msg_parse.go:11379
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12071,528 +11394,528 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st395
+			goto st385
 		case 32:
-			goto st395
+			goto st385
 		case 269:
-			goto tr577
+			goto tr557
 		case 525:
-			goto st396
+			goto st386
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr577
+				goto tr557
 			}
 		default:
-			goto tr577
+			goto tr557
 		}
 		goto st0
-	st396:
+	st386:
 		if p++; p == pe {
-			goto _test_eof396
+			goto _test_eof386
 		}
-	st_case_396:
+	st_case_386:
 		if data[p] == 10 {
-			goto st397
+			goto st387
 		}
 		goto st0
-	st397:
+	st387:
 		if p++; p == pe {
-			goto _test_eof397
+			goto _test_eof387
 		}
-	st_case_397:
+	st_case_387:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st388
 		case 32:
-			goto st398
+			goto st388
 		}
 		goto st0
-	st398:
+	st388:
 		if p++; p == pe {
-			goto _test_eof398
+			goto _test_eof388
 		}
-	st_case_398:
+	st_case_388:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st388
 		case 32:
-			goto st398
+			goto st388
 		}
-		goto tr577
-	st399:
+		goto tr557
+	st389:
 		if p++; p == pe {
-			goto _test_eof399
+			goto _test_eof389
 		}
-	st_case_399:
+	st_case_389:
 		switch data[p] {
 		case 78:
-			goto st400
+			goto st390
 		case 110:
-			goto st400
+			goto st390
 		}
-		goto tr417
-	st400:
+		goto tr397
+	st390:
 		if p++; p == pe {
-			goto _test_eof400
+			goto _test_eof390
 		}
-	st_case_400:
+	st_case_390:
 		switch data[p] {
 		case 84:
-			goto st401
+			goto st391
 		case 116:
-			goto st401
+			goto st391
 		}
-		goto tr417
-	st401:
+		goto tr397
+	st391:
 		if p++; p == pe {
-			goto _test_eof401
+			goto _test_eof391
 		}
-	st_case_401:
+	st_case_391:
 		if data[p] == 45 {
-			goto st402
+			goto st392
 		}
-		goto tr417
-	st402:
+		goto tr397
+	st392:
 		if p++; p == pe {
-			goto _test_eof402
+			goto _test_eof392
 		}
-	st_case_402:
+	st_case_392:
 		switch data[p] {
 		case 68:
-			goto st403
+			goto st393
 		case 69:
-			goto st414
+			goto st404
 		case 76:
-			goto st422
+			goto st412
 		case 84:
-			goto st441
+			goto st431
 		case 100:
-			goto st403
+			goto st393
 		case 101:
-			goto st414
+			goto st404
 		case 108:
-			goto st422
+			goto st412
 		case 116:
-			goto st441
+			goto st431
 		}
-		goto tr417
-	st403:
+		goto tr397
+	st393:
 		if p++; p == pe {
-			goto _test_eof403
+			goto _test_eof393
 		}
-	st_case_403:
+	st_case_393:
 		switch data[p] {
 		case 73:
-			goto st404
+			goto st394
 		case 105:
-			goto st404
+			goto st394
 		}
-		goto tr417
-	st404:
+		goto tr397
+	st394:
 		if p++; p == pe {
-			goto _test_eof404
+			goto _test_eof394
 		}
-	st_case_404:
+	st_case_394:
 		switch data[p] {
 		case 83:
-			goto st405
+			goto st395
 		case 115:
-			goto st405
+			goto st395
 		}
-		goto tr417
-	st405:
+		goto tr397
+	st395:
 		if p++; p == pe {
-			goto _test_eof405
+			goto _test_eof395
 		}
-	st_case_405:
+	st_case_395:
 		switch data[p] {
 		case 80:
-			goto st406
+			goto st396
 		case 112:
-			goto st406
+			goto st396
 		}
-		goto tr417
-	st406:
+		goto tr397
+	st396:
 		if p++; p == pe {
-			goto _test_eof406
+			goto _test_eof396
 		}
-	st_case_406:
+	st_case_396:
 		switch data[p] {
 		case 79:
-			goto st407
+			goto st397
 		case 111:
-			goto st407
+			goto st397
 		}
-		goto tr417
-	st407:
+		goto tr397
+	st397:
 		if p++; p == pe {
-			goto _test_eof407
+			goto _test_eof397
 		}
-	st_case_407:
+	st_case_397:
 		switch data[p] {
 		case 83:
-			goto st408
+			goto st398
 		case 115:
-			goto st408
+			goto st398
 		}
-		goto tr417
-	st408:
+		goto tr397
+	st398:
 		if p++; p == pe {
-			goto _test_eof408
+			goto _test_eof398
 		}
-	st_case_408:
+	st_case_398:
 		switch data[p] {
 		case 73:
-			goto st409
+			goto st399
 		case 105:
-			goto st409
+			goto st399
 		}
-		goto tr417
-	st409:
+		goto tr397
+	st399:
 		if p++; p == pe {
-			goto _test_eof409
+			goto _test_eof399
 		}
-	st_case_409:
+	st_case_399:
 		switch data[p] {
 		case 84:
-			goto st410
+			goto st400
 		case 116:
-			goto st410
+			goto st400
 		}
-		goto tr417
-	st410:
+		goto tr397
+	st400:
 		if p++; p == pe {
-			goto _test_eof410
+			goto _test_eof400
 		}
-	st_case_410:
+	st_case_400:
 		switch data[p] {
 		case 73:
-			goto st411
+			goto st401
 		case 105:
-			goto st411
+			goto st401
 		}
-		goto tr417
-	st411:
+		goto tr397
+	st401:
 		if p++; p == pe {
-			goto _test_eof411
+			goto _test_eof401
 		}
-	st_case_411:
+	st_case_401:
 		switch data[p] {
 		case 79:
-			goto st412
+			goto st402
 		case 111:
-			goto st412
+			goto st402
 		}
-		goto tr417
-	st412:
+		goto tr397
+	st402:
 		if p++; p == pe {
-			goto _test_eof412
+			goto _test_eof402
 		}
-	st_case_412:
+	st_case_402:
 		switch data[p] {
 		case 78:
-			goto st413
+			goto st403
 		case 110:
-			goto st413
+			goto st403
 		}
-		goto tr417
-	st413:
+		goto tr397
+	st403:
 		if p++; p == pe {
-			goto _test_eof413
+			goto _test_eof403
 		}
-	st_case_413:
+	st_case_403:
 		switch data[p] {
 		case 9:
-			goto tr598
+			goto tr578
 		case 32:
-			goto tr598
+			goto tr578
 		case 58:
-			goto tr599
+			goto tr579
 		}
-		goto tr417
-	st414:
+		goto tr397
+	st404:
 		if p++; p == pe {
-			goto _test_eof414
+			goto _test_eof404
 		}
-	st_case_414:
+	st_case_404:
 		switch data[p] {
 		case 78:
-			goto st415
+			goto st405
 		case 110:
-			goto st415
+			goto st405
 		}
-		goto tr417
-	st415:
+		goto tr397
+	st405:
 		if p++; p == pe {
-			goto _test_eof415
+			goto _test_eof405
 		}
-	st_case_415:
+	st_case_405:
 		switch data[p] {
 		case 67:
-			goto st416
+			goto st406
 		case 99:
-			goto st416
+			goto st406
 		}
-		goto tr417
-	st416:
+		goto tr397
+	st406:
 		if p++; p == pe {
-			goto _test_eof416
+			goto _test_eof406
 		}
-	st_case_416:
+	st_case_406:
 		switch data[p] {
 		case 79:
-			goto st417
+			goto st407
 		case 111:
-			goto st417
+			goto st407
 		}
-		goto tr417
-	st417:
+		goto tr397
+	st407:
 		if p++; p == pe {
-			goto _test_eof417
+			goto _test_eof407
 		}
-	st_case_417:
+	st_case_407:
 		switch data[p] {
 		case 68:
-			goto st418
+			goto st408
 		case 100:
-			goto st418
+			goto st408
 		}
-		goto tr417
-	st418:
+		goto tr397
+	st408:
 		if p++; p == pe {
-			goto _test_eof418
+			goto _test_eof408
 		}
-	st_case_418:
+	st_case_408:
 		switch data[p] {
 		case 73:
-			goto st419
+			goto st409
 		case 105:
-			goto st419
+			goto st409
 		}
-		goto tr417
-	st419:
+		goto tr397
+	st409:
 		if p++; p == pe {
-			goto _test_eof419
+			goto _test_eof409
 		}
-	st_case_419:
+	st_case_409:
 		switch data[p] {
 		case 78:
-			goto st420
+			goto st410
 		case 110:
-			goto st420
+			goto st410
 		}
-		goto tr417
-	st420:
+		goto tr397
+	st410:
 		if p++; p == pe {
-			goto _test_eof420
+			goto _test_eof410
 		}
-	st_case_420:
+	st_case_410:
 		switch data[p] {
 		case 71:
-			goto st421
+			goto st411
 		case 103:
-			goto st421
+			goto st411
 		}
-		goto tr417
-	st421:
+		goto tr397
+	st411:
 		if p++; p == pe {
-			goto _test_eof421
+			goto _test_eof411
 		}
-	st_case_421:
+	st_case_411:
 		switch data[p] {
 		case 9:
-			goto tr607
+			goto tr587
 		case 32:
-			goto tr607
+			goto tr587
 		case 58:
-			goto tr608
+			goto tr588
 		}
-		goto tr417
-	st422:
+		goto tr397
+	st412:
 		if p++; p == pe {
-			goto _test_eof422
+			goto _test_eof412
 		}
-	st_case_422:
+	st_case_412:
 		switch data[p] {
 		case 65:
-			goto st423
+			goto st413
 		case 69:
-			goto st430
+			goto st420
 		case 97:
-			goto st423
+			goto st413
 		case 101:
-			goto st430
+			goto st420
 		}
-		goto tr417
-	st423:
+		goto tr397
+	st413:
 		if p++; p == pe {
-			goto _test_eof423
+			goto _test_eof413
 		}
-	st_case_423:
+	st_case_413:
 		switch data[p] {
 		case 78:
-			goto st424
+			goto st414
 		case 110:
-			goto st424
+			goto st414
 		}
-		goto tr417
-	st424:
+		goto tr397
+	st414:
 		if p++; p == pe {
-			goto _test_eof424
+			goto _test_eof414
 		}
-	st_case_424:
+	st_case_414:
 		switch data[p] {
 		case 71:
-			goto st425
+			goto st415
 		case 103:
-			goto st425
+			goto st415
 		}
-		goto tr417
-	st425:
+		goto tr397
+	st415:
 		if p++; p == pe {
-			goto _test_eof425
+			goto _test_eof415
 		}
-	st_case_425:
+	st_case_415:
 		switch data[p] {
 		case 85:
-			goto st426
+			goto st416
 		case 117:
-			goto st426
+			goto st416
 		}
-		goto tr417
-	st426:
+		goto tr397
+	st416:
 		if p++; p == pe {
-			goto _test_eof426
+			goto _test_eof416
 		}
-	st_case_426:
+	st_case_416:
 		switch data[p] {
 		case 65:
-			goto st427
+			goto st417
 		case 97:
-			goto st427
+			goto st417
 		}
-		goto tr417
-	st427:
+		goto tr397
+	st417:
 		if p++; p == pe {
-			goto _test_eof427
+			goto _test_eof417
 		}
-	st_case_427:
+	st_case_417:
 		switch data[p] {
 		case 71:
-			goto st428
+			goto st418
 		case 103:
-			goto st428
+			goto st418
 		}
-		goto tr417
-	st428:
+		goto tr397
+	st418:
 		if p++; p == pe {
-			goto _test_eof428
+			goto _test_eof418
 		}
-	st_case_428:
+	st_case_418:
 		switch data[p] {
 		case 69:
-			goto st429
+			goto st419
 		case 101:
-			goto st429
+			goto st419
 		}
-		goto tr417
-	st429:
+		goto tr397
+	st419:
 		if p++; p == pe {
-			goto _test_eof429
+			goto _test_eof419
 		}
-	st_case_429:
+	st_case_419:
 		switch data[p] {
 		case 9:
-			goto tr617
+			goto tr597
 		case 32:
-			goto tr617
+			goto tr597
 		case 58:
-			goto tr618
+			goto tr598
 		}
-		goto tr417
-	st430:
+		goto tr397
+	st420:
 		if p++; p == pe {
-			goto _test_eof430
+			goto _test_eof420
 		}
-	st_case_430:
+	st_case_420:
 		switch data[p] {
 		case 78:
-			goto st431
+			goto st421
 		case 110:
-			goto st431
+			goto st421
 		}
-		goto tr417
-	st431:
+		goto tr397
+	st421:
 		if p++; p == pe {
-			goto _test_eof431
+			goto _test_eof421
 		}
-	st_case_431:
+	st_case_421:
 		switch data[p] {
 		case 71:
-			goto st432
+			goto st422
 		case 103:
-			goto st432
+			goto st422
 		}
-		goto tr417
-	st432:
+		goto tr397
+	st422:
 		if p++; p == pe {
-			goto _test_eof432
+			goto _test_eof422
 		}
-	st_case_432:
+	st_case_422:
 		switch data[p] {
 		case 84:
-			goto st433
+			goto st423
 		case 116:
-			goto st433
+			goto st423
 		}
-		goto tr417
-	st433:
+		goto tr397
+	st423:
 		if p++; p == pe {
-			goto _test_eof433
+			goto _test_eof423
 		}
-	st_case_433:
+	st_case_423:
 		switch data[p] {
 		case 72:
-			goto st434
+			goto st424
 		case 104:
-			goto st434
+			goto st424
 		}
-		goto tr417
-	st434:
+		goto tr397
+	st424:
 		if p++; p == pe {
-			goto _test_eof434
+			goto _test_eof424
 		}
-	st_case_434:
+	st_case_424:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st425
 		case 32:
-			goto st435
+			goto st425
 		case 58:
-			goto st436
+			goto st426
 		}
-		goto tr417
-	st435:
+		goto tr397
+	st425:
 		if p++; p == pe {
-			goto _test_eof435
+			goto _test_eof425
 		}
-	st_case_435:
+	st_case_425:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st425
 		case 32:
-			goto st435
+			goto st425
 		case 58:
-			goto st436
+			goto st426
 		}
 		goto st0
-	st436:
+	st426:
 		if p++; p == pe {
-			goto _test_eof436
+			goto _test_eof426
 		}
-	st_case_436:
+	st_case_426:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12602,17 +11925,17 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st436
+			goto st426
 		case 32:
-			goto st436
+			goto st426
 		case 525:
-			goto st438
+			goto st428
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-tr624:
+tr604:
 //line sip.rl:504
 clen=0
 //line sip.rl:230
@@ -12620,20 +11943,20 @@ clen=0
 	clen, err = addDigit(clen, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st437
-tr626:
+	goto st427
+tr606:
 //line sip.rl:230
 
 	clen, err = addDigit(clen, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st437
-	st437:
+	goto st427
+	st427:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof427
 		}
-	st_case_437:
-//line msg_parse.go:12628
+	st_case_427:
+//line msg_parse.go:11951
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12642,155 +11965,155 @@ tr626:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st371
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr606
 		}
 		goto st0
-	st438:
+	st428:
 		if p++; p == pe {
-			goto _test_eof438
+			goto _test_eof428
 		}
-	st_case_438:
+	st_case_428:
 		if data[p] == 10 {
-			goto st439
+			goto st429
 		}
 		goto st0
-	st439:
+	st429:
 		if p++; p == pe {
-			goto _test_eof439
+			goto _test_eof429
 		}
-	st_case_439:
+	st_case_429:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st430
 		case 32:
-			goto st440
+			goto st430
 		}
 		goto st0
-	st440:
+	st430:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof430
 		}
-	st_case_440:
+	st_case_430:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st430
 		case 32:
-			goto st440
+			goto st430
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-	st441:
+	st431:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof431
 		}
-	st_case_441:
+	st_case_431:
 		switch data[p] {
 		case 89:
-			goto st442
+			goto st432
 		case 121:
-			goto st442
+			goto st432
 		}
-		goto tr417
-	st442:
+		goto tr397
+	st432:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof432
 		}
-	st_case_442:
+	st_case_432:
 		switch data[p] {
 		case 80:
-			goto st443
+			goto st433
 		case 112:
-			goto st443
+			goto st433
 		}
-		goto tr417
-	st443:
+		goto tr397
+	st433:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof433
 		}
-	st_case_443:
+	st_case_433:
 		switch data[p] {
 		case 69:
-			goto st444
+			goto st434
 		case 101:
-			goto st444
+			goto st434
 		}
-		goto tr417
-	st444:
+		goto tr397
+	st434:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof434
 		}
-	st_case_444:
+	st_case_434:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st355
 		case 32:
-			goto st365
+			goto st355
 		case 58:
-			goto st366
+			goto st356
 		}
-		goto tr417
-	st445:
+		goto tr397
+	st435:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof435
 		}
-	st_case_445:
+	st_case_435:
 		switch data[p] {
 		case 69:
-			goto st446
+			goto st436
 		case 101:
-			goto st446
+			goto st436
 		}
-		goto tr417
-	st446:
+		goto tr397
+	st436:
 		if p++; p == pe {
-			goto _test_eof446
+			goto _test_eof436
 		}
-	st_case_446:
+	st_case_436:
 		switch data[p] {
 		case 81:
-			goto st447
+			goto st437
 		case 113:
-			goto st447
+			goto st437
 		}
-		goto tr417
-	st447:
+		goto tr397
+	st437:
 		if p++; p == pe {
-			goto _test_eof447
+			goto _test_eof437
 		}
-	st_case_447:
+	st_case_437:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st438
 		case 32:
-			goto st448
+			goto st438
 		case 58:
-			goto st449
+			goto st439
 		}
-		goto tr417
-	st448:
+		goto tr397
+	st438:
 		if p++; p == pe {
-			goto _test_eof448
+			goto _test_eof438
 		}
-	st_case_448:
+	st_case_438:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st438
 		case 32:
-			goto st448
+			goto st438
 		case 58:
-			goto st449
+			goto st439
 		}
 		goto st0
-	st449:
+	st439:
 		if p++; p == pe {
-			goto _test_eof449
+			goto _test_eof439
 		}
-	st_case_449:
+	st_case_439:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12800,17 +12123,17 @@ tr626:
 		}
 		switch _widec {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 525:
-			goto st456
+			goto st446
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr617
 		}
 		goto st0
-tr637:
+tr617:
 //line sip.rl:505
 msg.CSeq=0
 //line sip.rl:239
@@ -12818,20 +12141,20 @@ msg.CSeq=0
 	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st450
-tr640:
+	goto st440
+tr620:
 //line sip.rl:239
 
 	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st450
-	st450:
+	goto st440
+	st440:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof440
 		}
-	st_case_450:
-//line msg_parse.go:12826
+	st_case_440:
+//line msg_parse.go:12149
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12841,21 +12164,21 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st441
 		case 32:
-			goto st451
+			goto st441
 		case 525:
-			goto st453
+			goto st443
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr640
+			goto tr620
 		}
 		goto st0
-	st451:
+	st441:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof441
 		}
-	st_case_451:
+	st_case_441:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12865,55 +12188,55 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st441
 		case 32:
-			goto st451
+			goto st441
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		case 525:
-			goto st453
+			goto st443
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr622
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
 		}
 		goto st0
-tr642:
+tr622:
 //line sip.rl:80
 
 	mark = p
 
-	goto st452
-	st452:
+	goto st442
+	st442:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof442
 		}
-	st_case_452:
-//line msg_parse.go:12908
+	st_case_442:
+//line msg_parse.go:12231
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12923,174 +12246,307 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st452
+			goto st442
 		case 37:
-			goto st452
+			goto st442
 		case 39:
-			goto st452
+			goto st442
 		case 126:
-			goto st452
+			goto st442
 		case 269:
-			goto tr644
+			goto tr624
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st452
+					goto st442
 				}
 			case _widec >= 42:
-				goto st452
+				goto st442
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st452
+					goto st442
 				}
 			case _widec >= 65:
-				goto st452
+				goto st442
 			}
 		default:
-			goto st452
+			goto st442
 		}
 		goto st0
-	st453:
+	st443:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof443
 		}
-	st_case_453:
+	st_case_443:
 		if data[p] == 10 {
-			goto st454
+			goto st444
 		}
 		goto st0
-	st454:
+	st444:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof444
 		}
-	st_case_454:
+	st_case_444:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st445
 		case 32:
-			goto st455
+			goto st445
 		}
 		goto st0
-	st455:
+	st445:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof445
 		}
-	st_case_455:
+	st_case_445:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st445
 		case 32:
-			goto st455
+			goto st445
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr622
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
+		}
+		goto st0
+	st446:
+		if p++; p == pe {
+			goto _test_eof446
+		}
+	st_case_446:
+		if data[p] == 10 {
+			goto st447
+		}
+		goto st0
+	st447:
+		if p++; p == pe {
+			goto _test_eof447
+		}
+	st_case_447:
+		switch data[p] {
+		case 9:
+			goto st448
+		case 32:
+			goto st448
+		}
+		goto st0
+	st448:
+		if p++; p == pe {
+			goto _test_eof448
+		}
+	st_case_448:
+		switch data[p] {
+		case 9:
+			goto st448
+		case 32:
+			goto st448
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr617
+		}
+		goto st0
+	st449:
+		if p++; p == pe {
+			goto _test_eof449
+		}
+	st_case_449:
+		switch data[p] {
+		case 65:
+			goto st450
+		case 97:
+			goto st450
+		}
+		goto tr397
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
+		switch data[p] {
+		case 84:
+			goto st451
+		case 116:
+			goto st451
+		}
+		goto tr397
+	st451:
+		if p++; p == pe {
+			goto _test_eof451
+		}
+	st_case_451:
+		switch data[p] {
+		case 69:
+			goto st452
+		case 101:
+			goto st452
+		}
+		goto tr397
+	st452:
+		if p++; p == pe {
+			goto _test_eof452
+		}
+	st_case_452:
+		switch data[p] {
+		case 9:
+			goto tr632
+		case 32:
+			goto tr632
+		case 58:
+			goto tr633
+		}
+		goto tr397
+	st453:
+		if p++; p == pe {
+			goto _test_eof453
+		}
+	st_case_453:
+		switch data[p] {
+		case 9:
+			goto tr587
+		case 32:
+			goto tr587
+		case 58:
+			goto tr588
+		case 82:
+			goto st454
+		case 86:
+			goto st463
+		case 88:
+			goto st467
+		case 114:
+			goto st454
+		case 118:
+			goto st463
+		case 120:
+			goto st467
+		}
+		goto tr397
+	st454:
+		if p++; p == pe {
+			goto _test_eof454
+		}
+	st_case_454:
+		switch data[p] {
+		case 82:
+			goto st455
+		case 114:
+			goto st455
+		}
+		goto tr397
+	st455:
+		if p++; p == pe {
+			goto _test_eof455
+		}
+	st_case_455:
+		switch data[p] {
+		case 79:
+			goto st456
+		case 111:
+			goto st456
 		}
-		goto st0
+		goto tr397
 	st456:
 		if p++; p == pe {
 			goto _test_eof456
 		}
 	st_case_456:
-		if data[p] == 10 {
+		switch data[p] {
+		case 82:
+			goto st457
+		case 114:
 			goto st457
 		}
-		goto st0
+		goto tr397
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
+		if data[p] == 45 {
 			goto st458
 		}
-		goto st0
+		goto tr397
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
 		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
-			goto st458
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+		case 73:
+			goto st459
+		case 105:
+			goto st459
 		}
-		goto st0
+		goto tr397
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st460
-		case 97:
+		case 110:
 			goto st460
 		}
-		goto tr417
+		goto tr397
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st461
-		case 116:
+		case 102:
 			goto st461
 		}
-		goto tr417
+		goto tr397
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st462
-		case 101:
+		case 111:
 			goto st462
 		}
-		goto tr417
+		goto tr397
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
@@ -13098,84 +12554,75 @@ tr642:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr645
 		case 32:
-			goto tr652
+			goto tr645
 		case 58:
-			goto tr653
+			goto tr646
 		}
-		goto tr417
+		goto tr397
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
 	st_case_463:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
-		case 82:
+		case 69:
 			goto st464
-		case 86:
-			goto st473
-		case 88:
-			goto st477
-		case 114:
+		case 101:
 			goto st464
-		case 118:
-			goto st473
-		case 120:
-			goto st477
 		}
-		goto tr417
+		goto tr397
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st465
-		case 114:
+		case 110:
 			goto st465
 		}
-		goto tr417
+		goto tr397
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st466
-		case 111:
+		case 116:
 			goto st466
 		}
-		goto tr417
+		goto tr397
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 82:
-			goto st467
-		case 114:
-			goto st467
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		}
-		goto tr417
+		goto tr397
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st468
+		case 112:
 			goto st468
 		}
-		goto tr417
+		goto tr397
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
@@ -13187,43 +12634,43 @@ tr642:
 		case 105:
 			goto st469
 		}
-		goto tr417
+		goto tr397
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st470
-		case 110:
+		case 114:
 			goto st470
 		}
-		goto tr417
+		goto tr397
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st471
-		case 102:
+		case 101:
 			goto st471
 		}
-		goto tr417
+		goto tr397
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st472
-		case 111:
+		case 115:
 			goto st472
 		}
-		goto tr417
+		goto tr397
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
@@ -13231,123 +12678,165 @@ tr642:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr665
+			goto st473
 		case 32:
-			goto tr665
+			goto st473
 		case 58:
-			goto tr666
+			goto st474
 		}
-		goto tr417
+		goto tr397
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
 		}
 	st_case_473:
 		switch data[p] {
-		case 69:
-			goto st474
-		case 101:
+		case 9:
+			goto st473
+		case 32:
+			goto st473
+		case 58:
 			goto st474
 		}
-		goto tr417
+		goto st0
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
-		switch data[p] {
-		case 78:
-			goto st475
-		case 110:
-			goto st475
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st474
+		case 32:
+			goto st474
+		case 525:
+			goto st476
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
+tr659:
+//line sip.rl:506
+msg.Expires=0
+//line sip.rl:248
+
+	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st475
+tr661:
+//line sip.rl:248
+
+	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st475
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
-		switch data[p] {
-		case 84:
-			goto st476
-		case 116:
-			goto st476
+//line msg_parse.go:12739
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st371
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr661
 		}
-		goto tr417
+		goto st0
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
-		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		if data[p] == 10 {
+			goto st477
 		}
-		goto tr417
+		goto st0
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st478
-		case 112:
+		case 32:
 			goto st478
 		}
-		goto tr417
+		goto st0
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 73:
-			goto st479
-		case 105:
-			goto st479
+		case 9:
+			goto st478
+		case 32:
+			goto st478
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
+		case 9:
+			goto tr664
+		case 32:
+			goto tr664
+		case 58:
+			goto tr665
 		case 82:
 			goto st480
 		case 114:
 			goto st480
 		}
-		goto tr417
+		goto tr397
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st481
-		case 101:
+		case 111:
 			goto st481
 		}
-		goto tr417
+		goto tr397
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 83:
+		case 77:
 			goto st482
-		case 115:
+		case 109:
 			goto st482
 		}
-		goto tr417
+		goto tr397
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
@@ -13355,13 +12844,13 @@ tr642:
 	st_case_482:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto tr664
 		case 32:
-			goto st483
+			goto tr664
 		case 58:
-			goto st484
+			goto tr665
 		}
-		goto tr417
+		goto tr397
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13369,165 +12858,119 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto st366
 		case 32:
-			goto st483
+			goto st366
 		case 58:
+			goto st367
+		case 78:
+			goto st484
+		case 110:
 			goto st484
 		}
-		goto st0
+		goto tr397
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st484
-		case 32:
-			goto st484
-		case 525:
-			goto st486
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+		if data[p] == 45 {
+			goto st485
 		}
-		goto st0
-tr679:
-//line sip.rl:506
-msg.Expires=0
-//line sip.rl:248
-
-	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st485
-tr681:
-//line sip.rl:248
-
-	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st485
+		goto tr397
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13416
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr681
+		switch data[p] {
+		case 82:
+			goto st486
+		case 114:
+			goto st486
 		}
-		goto st0
+		goto tr397
 	st486:
 		if p++; p == pe {
 			goto _test_eof486
 		}
 	st_case_486:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st487
+		case 101:
 			goto st487
 		}
-		goto st0
+		goto tr397
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
 		switch data[p] {
-		case 9:
+		case 80:
 			goto st488
-		case 32:
+		case 112:
 			goto st488
 		}
-		goto st0
+		goto tr397
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
 	st_case_488:
 		switch data[p] {
-		case 9:
-			goto st488
-		case 32:
-			goto st488
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+		case 76:
+			goto st489
+		case 108:
+			goto st489
 		}
-		goto st0
+		goto tr397
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
+		case 89:
 			goto st490
-		case 114:
+		case 121:
 			goto st490
 		}
-		goto tr417
+		goto tr397
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
-		switch data[p] {
-		case 79:
-			goto st491
-		case 111:
+		if data[p] == 45 {
 			goto st491
 		}
-		goto tr417
+		goto tr397
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
 		switch data[p] {
-		case 77:
+		case 84:
 			goto st492
-		case 109:
+		case 116:
 			goto st492
 		}
-		goto tr417
+		goto tr397
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
+		case 79:
+			goto st493
+		case 111:
+			goto st493
 		}
-		goto tr417
+		goto tr397
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13535,531 +12978,532 @@ tr681:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto tr679
 		case 32:
-			goto st376
+			goto tr679
 		case 58:
-			goto st377
-		case 78:
-			goto st494
-		case 110:
-			goto st494
+			goto tr680
 		}
-		goto tr417
+		goto tr397
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
 		}
 	st_case_494:
-		if data[p] == 45 {
-			goto st495
+		switch data[p] {
+		case 9:
+			goto tr681
+		case 32:
+			goto tr681
+		case 58:
+			goto tr682
 		}
-		goto tr417
+		goto tr397
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr553
+		case 32:
+			goto tr553
+		case 58:
+			goto tr554
+		case 65:
 			goto st496
-		case 114:
+		case 73:
+			goto st513
+		case 97:
 			goto st496
+		case 105:
+			goto st513
 		}
-		goto tr417
+		goto tr397
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 69:
+		case 88:
 			goto st497
-		case 101:
+		case 120:
 			goto st497
 		}
-		goto tr417
+		goto tr397
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
-		switch data[p] {
-		case 80:
-			goto st498
-		case 112:
+		if data[p] == 45 {
 			goto st498
 		}
-		goto tr417
+		goto tr397
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
 		switch data[p] {
-		case 76:
+		case 70:
 			goto st499
-		case 108:
+		case 102:
 			goto st499
 		}
-		goto tr417
+		goto tr397
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 89:
+		case 79:
 			goto st500
-		case 121:
+		case 111:
 			goto st500
 		}
-		goto tr417
+		goto tr397
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st501
+		case 114:
 			goto st501
 		}
-		goto tr417
+		goto tr397
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
 		switch data[p] {
-		case 84:
+		case 87:
 			goto st502
-		case 116:
+		case 119:
 			goto st502
 		}
-		goto tr417
+		goto tr397
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st503
-		case 111:
+		case 97:
 			goto st503
 		}
-		goto tr417
+		goto tr397
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 9:
-			goto tr699
-		case 32:
-			goto tr699
-		case 58:
-			goto tr700
+		case 82:
+			goto st504
+		case 114:
+			goto st504
 		}
-		goto tr417
+		goto tr397
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 9:
-			goto tr701
-		case 32:
-			goto tr701
-		case 58:
-			goto tr702
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
-		goto tr417
+		goto tr397
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 9:
-			goto tr573
-		case 32:
-			goto tr573
-		case 58:
-			goto tr574
-		case 65:
+		case 83:
 			goto st506
-		case 73:
-			goto st523
-		case 97:
+		case 115:
 			goto st506
-		case 105:
-			goto st523
 		}
-		goto tr417
+		goto tr397
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 88:
+		case 9:
 			goto st507
-		case 120:
+		case 32:
 			goto st507
+		case 58:
+			goto st508
 		}
-		goto tr417
+		goto tr397
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st507
+		case 32:
+			goto st507
+		case 58:
 			goto st508
 		}
-		goto tr417
+		goto st0
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		switch data[p] {
-		case 70:
-			goto st509
-		case 102:
-			goto st509
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr417
+		switch _widec {
+		case 9:
+			goto st508
+		case 32:
+			goto st508
+		case 525:
+			goto st510
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr697
+		}
+		goto st0
+tr697:
+//line sip.rl:507
+msg.MaxForwards=0
+//line sip.rl:253
+
+	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st509
+tr699:
+//line sip.rl:253
+
+	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st509
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		switch data[p] {
-		case 79:
-			goto st510
-		case 111:
-			goto st510
+//line msg_parse.go:13206
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st371
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr699
 		}
-		goto tr417
+		goto st0
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
-		switch data[p] {
-		case 82:
-			goto st511
-		case 114:
+		if data[p] == 10 {
 			goto st511
 		}
-		goto tr417
+		goto st0
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 87:
+		case 9:
 			goto st512
-		case 119:
+		case 32:
 			goto st512
 		}
-		goto tr417
+		goto st0
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 65:
-			goto st513
-		case 97:
-			goto st513
+		case 9:
+			goto st512
+		case 32:
+			goto st512
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr697
 		}
-		goto tr417
+		goto st0
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st514
-		case 114:
+		case 78:
+			goto st524
+		case 109:
 			goto st514
+		case 110:
+			goto st524
 		}
-		goto tr417
+		goto tr397
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st515
-		case 100:
+		case 101:
 			goto st515
 		}
-		goto tr417
+		goto tr397
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
-		switch data[p] {
-		case 83:
-			goto st516
-		case 115:
+		if data[p] == 45 {
 			goto st516
 		}
-		goto tr417
+		goto tr397
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
 		switch data[p] {
-		case 9:
+		case 86:
 			goto st517
-		case 32:
+		case 118:
 			goto st517
-		case 58:
-			goto st518
 		}
-		goto tr417
+		goto tr397
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 9:
-			goto st517
-		case 32:
-			goto st517
-		case 58:
-			goto st518
-		}
-		goto st0
-	st518:
-		if p++; p == pe {
-			goto _test_eof518
-		}
-	st_case_518:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 69:
 			goto st518
-		case 32:
+		case 101:
 			goto st518
-		case 525:
-			goto st520
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+		goto tr397
+	st518:
+		if p++; p == pe {
+			goto _test_eof518
 		}
-		goto st0
-tr717:
-//line sip.rl:507
-msg.MaxForwards=0
-//line sip.rl:253
-
-	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st519
-tr719:
-//line sip.rl:253
-
-	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st519
+	st_case_518:
+		switch data[p] {
+		case 82:
+			goto st519
+		case 114:
+			goto st519
+		}
+		goto tr397
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13883
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr719
+		switch data[p] {
+		case 83:
+			goto st520
+		case 115:
+			goto st520
 		}
-		goto st0
+		goto tr397
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st521
+		case 105:
 			goto st521
 		}
-		goto st0
+		goto tr397
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 9:
+		case 79:
 			goto st522
-		case 32:
+		case 111:
 			goto st522
 		}
-		goto st0
+		goto tr397
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 9:
-			goto st522
-		case 32:
-			goto st522
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr717
+		case 78:
+			goto st523
+		case 110:
+			goto st523
 		}
-		goto st0
+		goto tr397
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 77:
-			goto st524
-		case 78:
-			goto st534
-		case 109:
-			goto st524
-		case 110:
-			goto st534
+		case 9:
+			goto tr713
+		case 32:
+			goto tr713
+		case 58:
+			goto tr714
 		}
-		goto tr417
+		goto tr397
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
-		switch data[p] {
-		case 69:
-			goto st525
-		case 101:
+		if data[p] == 45 {
 			goto st525
 		}
-		goto tr417
+		goto tr397
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st526
+		case 101:
 			goto st526
 		}
-		goto tr417
+		goto tr397
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
 		switch data[p] {
-		case 86:
+		case 88:
 			goto st527
-		case 118:
+		case 120:
 			goto st527
 		}
-		goto tr417
+		goto tr397
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st528
-		case 101:
+		case 112:
 			goto st528
 		}
-		goto tr417
+		goto tr397
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st529
-		case 114:
+		case 105:
 			goto st529
 		}
-		goto tr417
+		goto tr397
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st530
-		case 115:
+		case 114:
 			goto st530
 		}
-		goto tr417
+		goto tr397
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st531
-		case 105:
+		case 101:
 			goto st531
 		}
-		goto tr417
+		goto tr397
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st532
-		case 111:
+		case 115:
 			goto st532
 		}
-		goto tr417
+		goto tr397
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st533
-		case 110:
+		case 32:
 			goto st533
+		case 58:
+			goto st534
 		}
-		goto tr417
+		goto tr397
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
@@ -14067,456 +13511,452 @@ tr719:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr733
+			goto st533
 		case 32:
-			goto tr733
+			goto st533
 		case 58:
-			goto tr734
+			goto st534
 		}
-		goto tr417
+		goto st0
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
-		if data[p] == 45 {
-			goto st535
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st534
+		case 32:
+			goto st534
+		case 525:
+			goto st536
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr725
 		}
-		goto tr417
+		goto st0
+tr725:
+//line sip.rl:508
+msg.MinExpires=0
+//line sip.rl:258
+
+	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st535
+tr727:
+//line sip.rl:258
+
+	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
+	if err != nil { return nil, err }
+
+	goto st535
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		switch data[p] {
-		case 69:
-			goto st536
-		case 101:
-			goto st536
+//line msg_parse.go:13558
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st371
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr727
 		}
-		goto tr417
+		goto st0
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
-		switch data[p] {
-		case 88:
-			goto st537
-		case 120:
+		if data[p] == 10 {
 			goto st537
 		}
-		goto tr417
+		goto st0
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st538
-		case 112:
+		case 32:
 			goto st538
 		}
-		goto tr417
+		goto st0
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 73:
-			goto st539
-		case 105:
-			goto st539
+		case 9:
+			goto st538
+		case 32:
+			goto st538
 		}
-		goto tr417
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr725
+		}
+		goto st0
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		case 82:
 			goto st540
 		case 114:
 			goto st540
 		}
-		goto tr417
+		goto tr397
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st541
-		case 101:
+		case 103:
 			goto st541
 		}
-		goto tr417
+		goto tr397
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st542
-		case 115:
+		case 97:
 			goto st542
 		}
-		goto tr417
+		goto tr397
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st543
-		case 32:
+		case 110:
 			goto st543
-		case 58:
-			goto st544
 		}
-		goto tr417
+		goto tr397
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 9:
-			goto st543
-		case 32:
-			goto st543
-		case 58:
+		case 73:
+			goto st544
+		case 105:
 			goto st544
 		}
-		goto st0
+		goto tr397
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st544
-		case 32:
-			goto st544
-		case 525:
-			goto st546
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr745
+		switch data[p] {
+		case 90:
+			goto st545
+		case 122:
+			goto st545
 		}
-		goto st0
-tr745:
-//line sip.rl:508
-msg.MinExpires=0
-//line sip.rl:258
-
-	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st545
-tr747:
-//line sip.rl:258
-
-	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
-	if err != nil { return nil, err }
-
-	goto st545
+		goto tr397
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
-	st_case_545:
-//line msg_parse.go:14235
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr747
+	st_case_545:
+		switch data[p] {
+		case 65:
+			goto st546
+		case 97:
+			goto st546
 		}
-		goto st0
+		goto tr397
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		if data[p] == 10 {
+		switch data[p] {
+		case 84:
+			goto st547
+		case 116:
 			goto st547
 		}
-		goto st0
+		goto tr397
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st548
-		case 32:
+		case 105:
 			goto st548
 		}
-		goto st0
+		goto tr397
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 9:
-			goto st548
-		case 32:
-			goto st548
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr745
+		case 79:
+			goto st549
+		case 111:
+			goto st549
 		}
-		goto st0
+		goto tr397
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 78:
 			goto st550
-		case 114:
+		case 110:
 			goto st550
 		}
-		goto tr417
+		goto tr397
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 71:
-			goto st551
-		case 103:
-			goto st551
+		case 9:
+			goto tr741
+		case 32:
+			goto tr741
+		case 58:
+			goto tr742
 		}
-		goto tr417
+		goto tr397
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 65:
-			goto st552
-		case 97:
+		case 45:
 			goto st552
+		case 82:
+			goto st570
+		case 114:
+			goto st570
 		}
-		goto tr417
+		goto tr397
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st553
-		case 110:
+		case 97:
 			goto st553
 		}
-		goto tr417
+		goto tr397
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st554
-		case 105:
+		case 115:
 			goto st554
 		}
-		goto tr417
+		goto tr397
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 90:
+		case 83:
 			goto st555
-		case 122:
+		case 115:
 			goto st555
 		}
-		goto tr417
+		goto tr397
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st556
-		case 97:
+		case 101:
 			goto st556
 		}
-		goto tr417
+		goto tr397
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st557
-		case 116:
+		case 114:
 			goto st557
 		}
-		goto tr417
+		goto tr397
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st558
-		case 105:
+		case 116:
 			goto st558
 		}
-		goto tr417
+		goto tr397
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st559
-		case 111:
+		case 101:
 			goto st559
 		}
-		goto tr417
+		goto tr397
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 78:
+		case 68:
 			goto st560
-		case 110:
+		case 100:
 			goto st560
 		}
-		goto tr417
+		goto tr397
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
-		switch data[p] {
-		case 9:
-			goto tr761
-		case 32:
-			goto tr761
-		case 58:
-			goto tr762
+		if data[p] == 45 {
+			goto st561
 		}
-		goto tr417
+		goto tr397
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
 		switch data[p] {
-		case 45:
+		case 73:
+			goto st562
+		case 105:
 			goto st562
-		case 82:
-			goto st580
-		case 114:
-			goto st580
 		}
-		goto tr417
+		goto tr397
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st563
-		case 97:
+		case 100:
 			goto st563
 		}
-		goto tr417
+		goto tr397
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st564
-		case 115:
+		case 101:
 			goto st564
 		}
-		goto tr417
+		goto tr397
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 83:
+		case 78:
 			goto st565
-		case 115:
+		case 110:
 			goto st565
 		}
-		goto tr417
+		goto tr397
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st566
-		case 101:
+		case 116:
 			goto st566
 		}
-		goto tr417
+		goto tr397
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st567
-		case 114:
+		case 105:
 			goto st567
 		}
-		goto tr417
+		goto tr397
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
@@ -14528,124 +13968,135 @@ tr747:
 		case 116:
 			goto st568
 		}
-		goto tr417
+		goto tr397
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 69:
+		case 89:
 			goto st569
-		case 101:
+		case 121:
 			goto st569
 		}
-		goto tr417
+		goto tr397
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 68:
-			goto st570
-		case 100:
-			goto st570
+		case 9:
+			goto tr762
+		case 32:
+			goto tr762
+		case 58:
+			goto tr763
 		}
-		goto tr417
+		goto tr397
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st571
+		case 79:
+			goto st577
+		case 105:
 			goto st571
+		case 111:
+			goto st577
 		}
-		goto tr417
+		goto tr397
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st572
-		case 105:
+		case 111:
 			goto st572
 		}
-		goto tr417
+		goto tr397
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st573
-		case 100:
+		case 114:
 			goto st573
 		}
-		goto tr417
+		goto tr397
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st574
-		case 101:
+		case 105:
 			goto st574
 		}
-		goto tr417
+		goto tr397
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st575
-		case 110:
+		case 116:
 			goto st575
 		}
-		goto tr417
+		goto tr397
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st576
-		case 116:
+		case 121:
 			goto st576
 		}
-		goto tr417
+		goto tr397
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 73:
-			goto st577
-		case 105:
-			goto st577
+		case 9:
+			goto tr771
+		case 32:
+			goto tr771
+		case 58:
+			goto tr772
 		}
-		goto tr417
+		goto tr397
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 84:
+		case 88:
 			goto st578
-		case 116:
+		case 120:
 			goto st578
 		}
-		goto tr417
+		goto tr397
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
@@ -14657,572 +14108,563 @@ tr747:
 		case 121:
 			goto st579
 		}
-		goto tr417
+		goto tr397
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
-		switch data[p] {
-		case 9:
-			goto tr782
-		case 32:
-			goto tr782
-		case 58:
-			goto tr783
+		if data[p] == 45 {
+			goto st580
 		}
-		goto tr417
+		goto tr397
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st581
-		case 79:
-			goto st587
-		case 105:
+		case 82:
+			goto st602
+		case 97:
 			goto st581
-		case 111:
-			goto st587
+		case 114:
+			goto st602
 		}
-		goto tr417
+		goto tr397
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st582
-		case 111:
+		case 117:
 			goto st582
 		}
-		goto tr417
+		goto tr397
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st583
-		case 114:
+		case 116:
 			goto st583
 		}
-		goto tr417
+		goto tr397
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 73:
+		case 72:
 			goto st584
-		case 105:
+		case 104:
 			goto st584
 		}
-		goto tr417
+		goto tr397
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st585
-		case 116:
+		case 79:
+			goto st593
+		case 101:
 			goto st585
+		case 111:
+			goto st593
 		}
-		goto tr417
+		goto tr397
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st586
-		case 121:
+		case 110:
 			goto st586
 		}
-		goto tr417
+		goto tr397
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 9:
-			goto tr791
-		case 32:
-			goto tr791
-		case 58:
-			goto tr792
+		case 84:
+			goto st587
+		case 116:
+			goto st587
 		}
-		goto tr417
+		goto tr397
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 88:
+		case 73:
 			goto st588
-		case 120:
+		case 105:
 			goto st588
 		}
-		goto tr417
+		goto tr397
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 89:
+		case 67:
 			goto st589
-		case 121:
+		case 99:
 			goto st589
 		}
-		goto tr417
+		goto tr397
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st590
+		case 97:
 			goto st590
 		}
-		goto tr417
+		goto tr397
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st591
-		case 82:
-			goto st612
-		case 97:
+		case 116:
 			goto st591
-		case 114:
-			goto st612
 		}
-		goto tr417
+		goto tr397
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st592
-		case 117:
+		case 101:
 			goto st592
 		}
-		goto tr417
+		goto tr397
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 84:
-			goto st593
-		case 116:
-			goto st593
+		case 9:
+			goto tr790
+		case 32:
+			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr417
+		goto tr397
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 72:
+		case 82:
 			goto st594
-		case 104:
+		case 114:
 			goto st594
 		}
-		goto tr417
+		goto tr397
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st595
-		case 79:
-			goto st603
-		case 101:
+		case 105:
 			goto st595
-		case 111:
-			goto st603
 		}
-		goto tr417
+		goto tr397
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 78:
+		case 90:
 			goto st596
-		case 110:
+		case 122:
 			goto st596
 		}
-		goto tr417
+		goto tr397
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st597
-		case 116:
+		case 97:
 			goto st597
 		}
-		goto tr417
+		goto tr397
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st598
-		case 105:
+		case 116:
 			goto st598
 		}
-		goto tr417
+		goto tr397
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st599
-		case 99:
+		case 105:
 			goto st599
 		}
-		goto tr417
+		goto tr397
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st600
-		case 97:
+		case 111:
 			goto st600
 		}
-		goto tr417
+		goto tr397
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st601
-		case 116:
+		case 110:
 			goto st601
 		}
-		goto tr417
+		goto tr397
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 69:
-			goto st602
-		case 101:
-			goto st602
+		case 9:
+			goto tr800
+		case 32:
+			goto tr800
+		case 58:
+			goto tr801
 		}
-		goto tr417
+		goto tr397
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 69:
+			goto st603
+		case 101:
+			goto st603
 		}
-		goto tr417
+		goto tr397
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 82:
+		case 81:
 			goto st604
-		case 114:
+		case 113:
 			goto st604
 		}
-		goto tr417
+		goto tr397
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st605
-		case 105:
+		case 117:
 			goto st605
 		}
-		goto tr417
+		goto tr397
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st606
-		case 122:
+		case 105:
 			goto st606
 		}
-		goto tr417
+		goto tr397
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st607
-		case 97:
+		case 114:
 			goto st607
 		}
-		goto tr417
+		goto tr397
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st608
-		case 116:
+		case 101:
 			goto st608
 		}
-		goto tr417
+		goto tr397
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 73:
-			goto st609
-		case 105:
-			goto st609
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
-		goto tr417
+		goto tr397
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
+		case 69:
+			goto st610
 		case 79:
+			goto st665
+		case 101:
 			goto st610
 		case 111:
-			goto st610
+			goto st665
 		}
-		goto tr417
+		goto tr397
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st611
-		case 110:
+		case 70:
+			goto st621
+		case 77:
+			goto st632
+		case 80:
+			goto st645
+		case 81:
+			goto st651
+		case 84:
+			goto st656
+		case 99:
 			goto st611
+		case 102:
+			goto st621
+		case 109:
+			goto st632
+		case 112:
+			goto st645
+		case 113:
+			goto st651
+		case 116:
+			goto st656
 		}
-		goto tr417
+		goto tr397
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 9:
-			goto tr820
-		case 32:
-			goto tr820
-		case 58:
-			goto tr821
+		case 79:
+			goto st612
+		case 111:
+			goto st612
 		}
-		goto tr417
+		goto tr397
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st613
-		case 101:
+		case 114:
 			goto st613
 		}
-		goto tr417
+		goto tr397
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 81:
+		case 68:
 			goto st614
-		case 113:
+		case 100:
 			goto st614
 		}
-		goto tr417
+		goto tr397
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
-		switch data[p] {
-		case 85:
-			goto st615
-		case 117:
+		if data[p] == 45 {
 			goto st615
 		}
-		goto tr417
+		goto tr397
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st616
-		case 105:
+		case 114:
 			goto st616
 		}
-		goto tr417
+		goto tr397
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st617
-		case 114:
+		case 111:
 			goto st617
 		}
-		goto tr417
+		goto tr397
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st618
-		case 101:
+		case 117:
 			goto st618
 		}
-		goto tr417
+		goto tr397
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 9:
-			goto tr828
-		case 32:
-			goto tr828
-		case 58:
-			goto tr829
+		case 84:
+			goto st619
+		case 116:
+			goto st619
 		}
-		goto tr417
+		goto tr397
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
 		case 69:
 			goto st620
-		case 79:
-			goto st675
 		case 101:
 			goto st620
-		case 111:
-			goto st675
 		}
-		goto tr417
+		goto tr397
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 67:
-			goto st621
-		case 70:
-			goto st631
-		case 77:
-			goto st642
-		case 80:
-			goto st655
-		case 81:
-			goto st661
-		case 84:
-			goto st666
-		case 99:
-			goto st621
-		case 102:
-			goto st631
-		case 109:
-			goto st642
-		case 112:
-			goto st655
-		case 113:
-			goto st661
-		case 116:
-			goto st666
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		}
-		goto tr417
+		goto tr397
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st622
-		case 111:
+		case 101:
 			goto st622
 		}
-		goto tr417
+		goto tr397
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
@@ -15234,349 +14676,351 @@ tr747:
 		case 114:
 			goto st623
 		}
-		goto tr417
+		goto tr397
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 68:
-			goto st624
-		case 100:
+		case 45:
 			goto st624
+		case 82:
+			goto st627
+		case 114:
+			goto st627
 		}
-		goto tr417
+		goto tr397
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st625
+		case 116:
 			goto st625
 		}
-		goto tr417
+		goto tr397
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st626
-		case 114:
+		case 111:
 			goto st626
 		}
-		goto tr417
+		goto tr397
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 79:
-			goto st627
-		case 111:
-			goto st627
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr417
+		goto tr397
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st628
-		case 117:
+		case 101:
 			goto st628
 		}
-		goto tr417
+		goto tr397
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st629
-		case 116:
+		case 100:
 			goto st629
 		}
-		goto tr417
+		goto tr397
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
-		switch data[p] {
-		case 69:
-			goto st630
-		case 101:
+		if data[p] == 45 {
 			goto st630
 		}
-		goto tr417
+		goto tr397
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
 		switch data[p] {
-		case 9:
-			goto tr849
-		case 32:
-			goto tr849
-		case 58:
-			goto tr850
+		case 66:
+			goto st631
+		case 98:
+			goto st631
 		}
-		goto tr417
+		goto tr397
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 69:
-			goto st632
-		case 101:
-			goto st632
+		case 89:
+			goto st353
+		case 121:
+			goto st353
 		}
-		goto tr417
+		goto tr397
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st633
-		case 114:
+		case 111:
 			goto st633
 		}
-		goto tr417
+		goto tr397
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 45:
+		case 84:
+			goto st634
+		case 116:
 			goto st634
-		case 82:
-			goto st637
-		case 114:
-			goto st637
 		}
-		goto tr417
+		goto tr397
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st635
-		case 116:
+		case 101:
 			goto st635
 		}
-		goto tr417
+		goto tr397
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
-		switch data[p] {
-		case 79:
-			goto st636
-		case 111:
+		if data[p] == 45 {
 			goto st636
 		}
-		goto tr417
+		goto tr397
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
+		case 80:
+			goto st637
+		case 112:
+			goto st637
 		}
-		goto tr417
+		goto tr397
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st638
-		case 101:
+		case 97:
 			goto st638
 		}
-		goto tr417
+		goto tr397
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st639
-		case 100:
+		case 114:
 			goto st639
 		}
-		goto tr417
+		goto tr397
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st640
+		case 116:
 			goto st640
 		}
-		goto tr417
+		goto tr397
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
 		switch data[p] {
-		case 66:
+		case 89:
 			goto st641
-		case 98:
+		case 121:
 			goto st641
 		}
-		goto tr417
+		goto tr397
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
-		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		if data[p] == 45 {
+			goto st642
 		}
-		goto tr417
+		goto tr397
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st643
-		case 111:
+		case 105:
 			goto st643
 		}
-		goto tr417
+		goto tr397
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st644
-		case 116:
+		case 100:
 			goto st644
 		}
-		goto tr417
+		goto tr397
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 69:
-			goto st645
-		case 101:
-			goto st645
+		case 9:
+			goto tr853
+		case 32:
+			goto tr853
+		case 58:
+			goto tr854
 		}
-		goto tr417
+		goto tr397
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st646
+		case 108:
 			goto st646
 		}
-		goto tr417
+		goto tr397
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st647
-		case 112:
+		case 121:
 			goto st647
 		}
-		goto tr417
+		goto tr397
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
-		switch data[p] {
-		case 65:
-			goto st648
-		case 97:
+		if data[p] == 45 {
 			goto st648
 		}
-		goto tr417
+		goto tr397
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st649
-		case 114:
+		case 116:
 			goto st649
 		}
-		goto tr417
+		goto tr397
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st650
-		case 116:
+		case 111:
 			goto st650
 		}
-		goto tr417
+		goto tr397
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 89:
-			goto st651
-		case 121:
-			goto st651
+		case 9:
+			goto tr860
+		case 32:
+			goto tr860
+		case 58:
+			goto tr861
 		}
-		goto tr417
+		goto tr397
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st652
+		case 117:
 			goto st652
 		}
-		goto tr417
+		goto tr397
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
@@ -15588,128 +15032,126 @@ tr747:
 		case 105:
 			goto st653
 		}
-		goto tr417
+		goto tr397
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st654
-		case 100:
+		case 114:
 			goto st654
 		}
-		goto tr417
+		goto tr397
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 9:
-			goto tr873
-		case 32:
-			goto tr873
-		case 58:
-			goto tr874
+		case 69:
+			goto st655
+		case 101:
+			goto st655
 		}
-		goto tr417
+		goto tr397
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 76:
-			goto st656
-		case 108:
-			goto st656
+		case 9:
+			goto tr866
+		case 32:
+			goto tr866
+		case 58:
+			goto tr867
 		}
-		goto tr417
+		goto tr397
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st657
-		case 121:
+		case 114:
 			goto st657
 		}
-		goto tr417
+		goto tr397
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st658
+		case 121:
 			goto st658
 		}
-		goto tr417
+		goto tr397
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		switch data[p] {
-		case 84:
-			goto st659
-		case 116:
+		if data[p] == 45 {
 			goto st659
 		}
-		goto tr417
+		goto tr397
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st660
-		case 111:
+		case 97:
 			goto st660
 		}
-		goto tr417
+		goto tr397
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 70:
+			goto st661
+		case 102:
+			goto st661
 		}
-		goto tr417
+		goto tr397
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st662
-		case 117:
+		case 116:
 			goto st662
 		}
-		goto tr417
+		goto tr397
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st663
-		case 105:
+		case 101:
 			goto st663
 		}
-		goto tr417
+		goto tr397
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
@@ -15721,102 +15163,117 @@ tr747:
 		case 114:
 			goto st664
 		}
-		goto tr417
+		goto tr397
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 69:
-			goto st665
-		case 101:
-			goto st665
+		case 9:
+			goto tr876
+		case 32:
+			goto tr876
+		case 58:
+			goto tr877
 		}
-		goto tr417
+		goto tr397
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 85:
+			goto st666
+		case 117:
+			goto st666
 		}
-		goto tr417
+		goto tr397
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st667
-		case 114:
+		case 116:
 			goto st667
 		}
-		goto tr417
+		goto tr397
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 89:
+		case 69:
 			goto st668
-		case 121:
+		case 101:
 			goto st668
 		}
-		goto tr417
+		goto tr397
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
-		if data[p] == 45 {
-			goto st669
+		switch data[p] {
+		case 9:
+			goto tr881
+		case 32:
+			goto tr881
+		case 58:
+			goto tr882
 		}
-		goto tr417
+		goto tr397
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
 		switch data[p] {
-		case 65:
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
+		case 69:
 			goto st670
-		case 97:
+		case 85:
+			goto st675
+		case 101:
 			goto st670
+		case 117:
+			goto st675
 		}
-		goto tr417
+		goto tr397
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 70:
+		case 82:
 			goto st671
-		case 102:
+		case 114:
 			goto st671
 		}
-		goto tr417
+		goto tr397
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 84:
+		case 86:
 			goto st672
-		case 116:
+		case 118:
 			goto st672
 		}
-		goto tr417
+		goto tr397
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
@@ -15828,7 +15285,7 @@ tr747:
 		case 101:
 			goto st673
 		}
-		goto tr417
+		goto tr397
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15840,7 +15297,7 @@ tr747:
 		case 114:
 			goto st674
 		}
-		goto tr417
+		goto tr397
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15848,37 +15305,41 @@ tr747:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr896
+			goto tr891
 		case 32:
-			goto tr896
+			goto tr891
 		case 58:
-			goto tr897
+			goto tr892
 		}
-		goto tr417
+		goto tr397
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 85:
+		case 66:
 			goto st676
-		case 117:
+		case 80:
+			goto st681
+		case 98:
 			goto st676
+		case 112:
+			goto st681
 		}
-		goto tr417
+		goto tr397
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 84:
+		case 74:
 			goto st677
-		case 116:
+		case 106:
 			goto st677
 		}
-		goto tr417
+		goto tr397
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
@@ -15890,79 +15351,69 @@ tr747:
 		case 101:
 			goto st678
 		}
-		goto tr417
+		goto tr397
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 9:
-			goto tr901
-		case 32:
-			goto tr901
-		case 58:
-			goto tr902
+		case 67:
+			goto st679
+		case 99:
+			goto st679
 		}
-		goto tr417
+		goto tr397
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
-		case 69:
+		case 84:
 			goto st680
-		case 85:
-			goto st685
-		case 101:
+		case 116:
 			goto st680
-		case 117:
-			goto st685
 		}
-		goto tr417
+		goto tr397
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 82:
-			goto st681
-		case 114:
-			goto st681
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
 		}
-		goto tr417
+		goto tr397
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 86:
+		case 80:
 			goto st682
-		case 118:
+		case 112:
 			goto st682
 		}
-		goto tr417
+		goto tr397
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st683
-		case 101:
+		case 111:
 			goto st683
 		}
-		goto tr417
+		goto tr397
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
@@ -15974,171 +15425,177 @@ tr747:
 		case 114:
 			goto st684
 		}
-		goto tr417
+		goto tr397
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
+		case 84:
+			goto st685
+		case 116:
+			goto st685
 		}
-		goto tr417
+		goto tr397
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 66:
+		case 69:
 			goto st686
-		case 80:
-			goto st691
-		case 98:
+		case 101:
 			goto st686
-		case 112:
-			goto st691
 		}
-		goto tr417
+		goto tr397
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 74:
-			goto st687
-		case 106:
-			goto st687
+		case 68:
+			goto st494
+		case 100:
+			goto st494
 		}
-		goto tr417
+		goto tr397
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
+		case 73:
 			goto st688
-		case 101:
+		case 79:
+			goto st696
+		case 105:
 			goto st688
+		case 111:
+			goto st696
 		}
-		goto tr417
+		goto tr397
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 67:
+		case 77:
 			goto st689
-		case 99:
+		case 109:
 			goto st689
 		}
-		goto tr417
+		goto tr397
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st690
-		case 116:
+		case 101:
 			goto st690
 		}
-		goto tr417
+		goto tr397
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 83:
+			goto st691
+		case 115:
+			goto st691
 		}
-		goto tr417
+		goto tr397
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st692
-		case 112:
+		case 116:
 			goto st692
 		}
-		goto tr417
+		goto tr397
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st693
-		case 111:
+		case 97:
 			goto st693
 		}
-		goto tr417
+		goto tr397
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st694
-		case 114:
+		case 109:
 			goto st694
 		}
-		goto tr417
+		goto tr397
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st695
-		case 116:
+		case 112:
 			goto st695
 		}
-		goto tr417
+		goto tr397
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 69:
-			goto st696
-		case 101:
-			goto st696
+		case 9:
+			goto tr915
+		case 32:
+			goto tr915
+		case 58:
+			goto tr916
 		}
-		goto tr417
+		goto tr397
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
 		}
-		goto tr417
+		goto tr397
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
@@ -16146,133 +15603,129 @@ tr747:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr924
+			goto tr483
 		case 32:
-			goto tr924
+			goto tr483
 		case 58:
-			goto tr925
-		case 73:
+			goto tr484
+		case 78:
 			goto st698
-		case 79:
-			goto st706
-		case 105:
+		case 83:
+			goto st708
+		case 110:
 			goto st698
-		case 111:
-			goto st706
+		case 115:
+			goto st708
 		}
-		goto tr417
+		goto tr397
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 77:
+		case 83:
 			goto st699
-		case 109:
+		case 115:
 			goto st699
 		}
-		goto tr417
+		goto tr397
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st700
-		case 101:
+		case 117:
 			goto st700
 		}
-		goto tr417
+		goto tr397
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st701
-		case 115:
+		case 112:
 			goto st701
 		}
-		goto tr417
+		goto tr397
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st702
-		case 116:
+		case 112:
 			goto st702
 		}
-		goto tr417
+		goto tr397
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st703
-		case 97:
+		case 111:
 			goto st703
 		}
-		goto tr417
+		goto tr397
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 77:
+		case 82:
 			goto st704
-		case 109:
+		case 114:
 			goto st704
 		}
-		goto tr417
+		goto tr397
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st705
-		case 112:
+		case 116:
 			goto st705
 		}
-		goto tr417
+		goto tr397
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 9:
-			goto tr935
-		case 32:
-			goto tr935
-		case 58:
-			goto tr936
+		case 69:
+			goto st706
+		case 101:
+			goto st706
 		}
-		goto tr417
+		goto tr397
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 9:
-			goto tr924
-		case 32:
-			goto tr924
-		case 58:
-			goto tr925
+		case 68:
+			goto st707
+		case 100:
+			goto st707
 		}
-		goto tr417
+		goto tr397
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16280,129 +15733,120 @@ tr747:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr503
+			goto tr928
 		case 32:
-			goto tr503
+			goto tr928
 		case 58:
-			goto tr504
-		case 78:
-			goto st708
-		case 83:
-			goto st718
-		case 110:
-			goto st708
-		case 115:
-			goto st718
+			goto tr929
 		}
-		goto tr417
+		goto tr397
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st709
-		case 115:
+		case 101:
 			goto st709
 		}
-		goto tr417
+		goto tr397
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st710
-		case 117:
+		case 114:
 			goto st710
 		}
-		goto tr417
+		goto tr397
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
-		switch data[p] {
-		case 80:
-			goto st711
-		case 112:
+		if data[p] == 45 {
 			goto st711
 		}
-		goto tr417
+		goto tr397
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
 		switch data[p] {
-		case 80:
+		case 65:
 			goto st712
-		case 112:
+		case 97:
 			goto st712
 		}
-		goto tr417
+		goto tr397
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 79:
+		case 71:
 			goto st713
-		case 111:
+		case 103:
 			goto st713
 		}
-		goto tr417
+		goto tr397
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st714
-		case 114:
+		case 101:
 			goto st714
 		}
-		goto tr417
+		goto tr397
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st715
-		case 116:
+		case 110:
 			goto st715
 		}
-		goto tr417
+		goto tr397
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st716
-		case 101:
+		case 116:
 			goto st716
 		}
-		goto tr417
+		goto tr397
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 68:
-			goto st717
-		case 100:
-			goto st717
+		case 9:
+			goto tr938
+		case 32:
+			goto tr938
+		case 58:
+			goto tr939
 		}
-		goto tr417
+		goto tr397
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -16410,192 +15854,197 @@ tr747:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr948
+			goto st718
 		case 32:
-			goto tr948
+			goto st718
 		case 58:
-			goto tr949
+			goto st719
+		case 73:
+			goto st723
+		case 105:
+			goto st723
 		}
-		goto tr417
+		goto tr397
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
 		}
 	st_case_718:
 		switch data[p] {
-		case 69:
-			goto st719
-		case 101:
+		case 9:
+			goto st718
+		case 32:
+			goto st718
+		case 58:
 			goto st719
 		}
-		goto tr417
+		goto st0
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
-		switch data[p] {
-		case 82:
-			goto st720
-		case 114:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 269:
+			goto tr943
+		case 525:
 			goto st720
 		}
-		goto tr417
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr943
+			}
+		default:
+			goto tr943
+		}
+		goto st0
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		if data[p] == 45 {
+		if data[p] == 10 {
 			goto st721
 		}
-		goto tr417
+		goto st0
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
 		switch data[p] {
-		case 65:
+		case 9:
 			goto st722
-		case 97:
+		case 32:
 			goto st722
 		}
-		goto tr417
+		goto st0
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 71:
-			goto st723
-		case 103:
-			goto st723
+		case 9:
+			goto st722
+		case 32:
+			goto st722
 		}
-		goto tr417
+		goto tr943
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st724
-		case 101:
+		case 97:
 			goto st724
 		}
-		goto tr417
+		goto tr397
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 78:
-			goto st725
-		case 110:
-			goto st725
+		case 9:
+			goto st718
+		case 32:
+			goto st718
+		case 58:
+			goto st719
 		}
-		goto tr417
+		goto tr397
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st726
-		case 116:
+		case 87:
+			goto st732
+		case 97:
 			goto st726
+		case 119:
+			goto st732
 		}
-		goto tr417
+		goto tr397
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 9:
-			goto tr958
-		case 32:
-			goto tr958
-		case 58:
-			goto tr959
+		case 82:
+			goto st727
+		case 114:
+			goto st727
 		}
-		goto tr417
+		goto tr397
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st728
-		case 32:
+		case 110:
 			goto st728
-		case 58:
-			goto st729
-		case 73:
-			goto st733
-		case 105:
-			goto st733
 		}
-		goto tr417
+		goto tr397
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
+		case 73:
+			goto st729
+		case 105:
 			goto st729
 		}
-		goto st0
+		goto tr397
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 269:
-			goto tr963
-		case 525:
+		switch data[p] {
+		case 78:
+			goto st730
+		case 110:
 			goto st730
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr963
-			}
-		default:
-			goto tr963
-		}
-		goto st0
+		goto tr397
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		if data[p] == 10 {
+		switch data[p] {
+		case 71:
+			goto st731
+		case 103:
 			goto st731
 		}
-		goto st0
+		goto tr397
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
@@ -16603,101 +16052,94 @@ tr747:
 	st_case_731:
 		switch data[p] {
 		case 9:
-			goto st732
+			goto tr955
 		case 32:
-			goto st732
+			goto tr955
+		case 58:
+			goto tr956
 		}
-		goto st0
+		goto tr397
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 9:
-			goto st732
-		case 32:
-			goto st732
+		case 87:
+			goto st733
+		case 119:
+			goto st733
 		}
-		goto tr963
+		goto tr397
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
-		switch data[p] {
-		case 65:
-			goto st734
-		case 97:
+		if data[p] == 45 {
 			goto st734
 		}
-		goto tr417
+		goto tr397
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
-			goto st729
+		case 65:
+			goto st735
+		case 97:
+			goto st735
 		}
-		goto tr417
+		goto tr397
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st736
-		case 87:
-			goto st742
-		case 97:
+		case 117:
 			goto st736
-		case 119:
-			goto st742
 		}
-		goto tr417
+		goto tr397
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st737
-		case 114:
+		case 116:
 			goto st737
 		}
-		goto tr417
+		goto tr397
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 78:
+		case 72:
 			goto st738
-		case 110:
+		case 104:
 			goto st738
 		}
-		goto tr417
+		goto tr397
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st739
-		case 105:
+		case 101:
 			goto st739
 		}
-		goto tr417
+		goto tr397
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
@@ -16709,219 +16151,100 @@ tr747:
 		case 110:
 			goto st740
 		}
-		goto tr417
+		goto tr397
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 71:
+		case 84:
 			goto st741
-		case 103:
+		case 116:
 			goto st741
 		}
-		goto tr417
+		goto tr397
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 9:
-			goto tr975
-		case 32:
-			goto tr975
-		case 58:
-			goto tr976
+		case 73:
+			goto st742
+		case 105:
+			goto st742
 		}
-		goto tr417
+		goto tr397
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 87:
+		case 67:
 			goto st743
-		case 119:
+		case 99:
 			goto st743
 		}
-		goto tr417
+		goto tr397
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st744
+		case 97:
 			goto st744
 		}
-		goto tr417
+		goto tr397
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st745
-		case 97:
+		case 116:
 			goto st745
 		}
-		goto tr417
+		goto tr397
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st746
-		case 117:
+		case 101:
 			goto st746
 		}
-		goto tr417
+		goto tr397
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
-		switch data[p] {
-		case 84:
-			goto st747
-		case 116:
-			goto st747
-		}
-		goto tr417
-	st747:
-		if p++; p == pe {
-			goto _test_eof747
-		}
-	st_case_747:
-		switch data[p] {
-		case 72:
-			goto st748
-		case 104:
-			goto st748
-		}
-		goto tr417
-	st748:
-		if p++; p == pe {
-			goto _test_eof748
-		}
-	st_case_748:
-		switch data[p] {
-		case 69:
-			goto st749
-		case 101:
-			goto st749
-		}
-		goto tr417
-	st749:
-		if p++; p == pe {
-			goto _test_eof749
-		}
-	st_case_749:
-		switch data[p] {
-		case 78:
-			goto st750
-		case 110:
-			goto st750
-		}
-		goto tr417
-	st750:
-		if p++; p == pe {
-			goto _test_eof750
-		}
-	st_case_750:
-		switch data[p] {
-		case 84:
-			goto st751
-		case 116:
-			goto st751
-		}
-		goto tr417
-	st751:
-		if p++; p == pe {
-			goto _test_eof751
-		}
-	st_case_751:
-		switch data[p] {
-		case 73:
-			goto st752
-		case 105:
-			goto st752
-		}
-		goto tr417
-	st752:
-		if p++; p == pe {
-			goto _test_eof752
-		}
-	st_case_752:
-		switch data[p] {
-		case 67:
-			goto st753
-		case 99:
-			goto st753
-		}
-		goto tr417
-	st753:
-		if p++; p == pe {
-			goto _test_eof753
-		}
-	st_case_753:
-		switch data[p] {
-		case 65:
-			goto st754
-		case 97:
-			goto st754
-		}
-		goto tr417
-	st754:
-		if p++; p == pe {
-			goto _test_eof754
-		}
-	st_case_754:
-		switch data[p] {
-		case 84:
-			goto st755
-		case 116:
-			goto st755
-		}
-		goto tr417
-	st755:
-		if p++; p == pe {
-			goto _test_eof755
-		}
-	st_case_755:
-		switch data[p] {
-		case 69:
-			goto st756
-		case 101:
-			goto st756
-		}
-		goto tr417
-	st756:
-		if p++; p == pe {
-			goto _test_eof756
-		}
-	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr991
+			goto tr971
 		case 32:
-			goto tr991
+			goto tr971
 		case 58:
-			goto tr992
+			goto tr972
 		}
-		goto tr417
-	st757:
+		goto tr397
+	st747:
 		if p++; p == pe {
-			goto _test_eof757
+			goto _test_eof747
 		}
-	st_case_757:
+	st_case_747:
 		if data[p] == 10 {
-			goto tr993
+			goto tr973
 		}
 		goto st0
 	st_out:
@@ -16937,7 +16260,7 @@ tr747:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
+	_test_eof748: cs = 748; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16969,7 +16292,7 @@ tr747:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
+	_test_eof749: cs = 749; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16997,7 +16320,7 @@ tr747:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
+	_test_eof750: cs = 750; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17041,7 +16364,7 @@ tr747:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
+	_test_eof751: cs = 751; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17084,7 +16407,7 @@ tr747:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
+	_test_eof752: cs = 752; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17124,7 +16447,7 @@ tr747:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
+	_test_eof753: cs = 753; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17164,7 +16487,7 @@ tr747:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
+	_test_eof754: cs = 754; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17177,45 +16500,40 @@ tr747:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
+	_test_eof755: cs = 755; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
+	_test_eof756: cs = 756; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
 	_test_eof262: cs = 262; goto _test_eof
 	_test_eof263: cs = 263; goto _test_eof
 	_test_eof264: cs = 264; goto _test_eof
 	_test_eof265: cs = 265; goto _test_eof
 	_test_eof266: cs = 266; goto _test_eof
+	_test_eof757: cs = 757; goto _test_eof
 	_test_eof267: cs = 267; goto _test_eof
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
@@ -17224,7 +16542,6 @@ tr747:
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17688,28 +17005,18 @@ tr747:
 	_test_eof745: cs = 745; goto _test_eof
 	_test_eof746: cs = 746; goto _test_eof
 	_test_eof747: cs = 747; goto _test_eof
-	_test_eof748: cs = 748; goto _test_eof
-	_test_eof749: cs = 749; goto _test_eof
-	_test_eof750: cs = 750; goto _test_eof
-	_test_eof751: cs = 751; goto _test_eof
-	_test_eof752: cs = 752; goto _test_eof
-	_test_eof753: cs = 753; goto _test_eof
-	_test_eof754: cs = 754; goto _test_eof
-	_test_eof755: cs = 755; goto _test_eof
-	_test_eof756: cs = 756; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
+		case 271, 272, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 360, 361, 362, 363, 364, 365, 375, 376, 377, 378, 379, 380, 381, 382, 383, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 431, 432, 433, 434, 435, 436, 437, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746:
 //line sip.rl:177
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
-//line msg_parse.go:17704
+//line msg_parse.go:17011
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index bab9583..847530a 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -436,7 +436,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := ( scheme ":" ( uric - [;,] )+ ) %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From 2a1bf92d7672c168bc95be487154e8700cf155a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 14/50] fix: accept bodies that start with a space or a tab

The empty line before the body was taken for a folded header.
---
 sip/msg_parse.go | 4927 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    2 +-
 2 files changed, 2461 insertions(+), 2468 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 8317d57..88bd067 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -654,14 +654,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_270
 	case 271:
 		goto st_case_271
+	case 758:
+		goto st_case_758
 	case 272:
 		goto st_case_272
 	case 273:
 		goto st_case_273
 	case 274:
 		goto st_case_274
-	case 758:
-		goto st_case_758
 	case 275:
 		goto st_case_275
 	case 276:
@@ -1646,7 +1646,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr397:
+tr398:
 //line sip.rl:177
 
 	p = ( mark) - 1
@@ -9173,49 +9173,110 @@ value=nil
 			goto _test_eof270
 		}
 	st_case_270:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st271
 		case 33:
-			goto tr395
+			goto tr396
 		case 37:
-			goto tr395
+			goto tr396
 		case 39:
-			goto tr395
+			goto tr396
 		case 126:
-			goto tr395
-		case 269:
-			goto st747
+			goto tr396
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto tr395
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr396
 				}
-			case _widec >= 42:
-				goto tr395
+			case data[p] >= 42:
+				goto tr396
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto tr395
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
+					goto tr396
 				}
-			case _widec >= 65:
-				goto tr395
+			case data[p] >= 65:
+				goto tr396
 			}
 		default:
-			goto tr395
+			goto tr396
+		}
+		goto st0
+	st271:
+		if p++; p == pe {
+			goto _test_eof271
+		}
+	st_case_271:
+		if data[p] == 10 {
+			goto tr397
+		}
+		goto st0
+tr541:
+//line sip.rl:268
+ {goto st270 } 
+	goto st758
+tr397:
+//line sip.rl:76
+
+	{p++; cs = 758; goto _out }
+
+	goto st758
+tr424:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:269
+ {goto st253 } 
+	goto st758
+tr523:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:267
+ {goto st34 } 
+	goto st758
+tr558:
+//line sip.rl:546
+value=nil
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:263
+ {goto st246 } 
+	goto st758
+tr944:
+//line sip.rl:141
+
+	via = new(Via)
+
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:270
+ {goto st103 } 
+	goto st758
+	st758:
+		if p++; p == pe {
+			goto _test_eof758
 		}
+	st_case_758:
+//line msg_parse.go:9269
 		goto st0
-tr395:
+tr396:
 //line sip.rl:80
 
 	mark = p
@@ -9225,423 +9286,423 @@ tr395:
 	p--
 
 
-	goto st271
-	st271:
+	goto st272
+	st272:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof272
 		}
-	st_case_271:
-//line msg_parse.go:9226
+	st_case_272:
+//line msg_parse.go:9287
 		switch data[p] {
 		case 65:
-			goto st272
+			goto st273
 		case 66:
-			goto st353
-		case 67:
 			goto st354
+		case 67:
+			goto st355
 		case 68:
-			goto st449
+			goto st450
 		case 69:
-			goto st453
+			goto st454
 		case 70:
-			goto st479
+			goto st480
 		case 73:
-			goto st483
+			goto st484
 		case 75:
-			goto st494
+			goto st495
 		case 76:
-			goto st424
+			goto st425
 		case 77:
-			goto st495
+			goto st496
 		case 79:
-			goto st539
+			goto st540
 		case 80:
-			goto st551
+			goto st552
 		case 82:
-			goto st609
+			goto st610
 		case 83:
-			goto st669
+			goto st670
 		case 84:
-			goto st687
+			goto st688
 		case 85:
-			goto st697
+			goto st698
 		case 86:
-			goto st717
+			goto st718
 		case 87:
-			goto st725
+			goto st726
 		case 97:
-			goto st272
+			goto st273
 		case 98:
-			goto st353
-		case 99:
 			goto st354
+		case 99:
+			goto st355
 		case 100:
-			goto st449
+			goto st450
 		case 101:
-			goto st453
+			goto st454
 		case 102:
-			goto st479
+			goto st480
 		case 105:
-			goto st483
+			goto st484
 		case 107:
-			goto st494
+			goto st495
 		case 108:
-			goto st424
+			goto st425
 		case 109:
-			goto st495
+			goto st496
 		case 111:
-			goto st539
+			goto st540
 		case 112:
-			goto st551
+			goto st552
 		case 114:
-			goto st609
+			goto st610
 		case 115:
-			goto st669
+			goto st670
 		case 116:
-			goto st687
+			goto st688
 		case 117:
-			goto st697
+			goto st698
 		case 118:
-			goto st717
+			goto st718
 		case 119:
-			goto st725
+			goto st726
 		}
-		goto tr397
-	st272:
+		goto tr398
+	st273:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof273
 		}
-	st_case_272:
+	st_case_273:
 		switch data[p] {
 		case 9:
-			goto tr416
+			goto tr417
 		case 32:
-			goto tr416
-		case 58:
 			goto tr417
+		case 58:
+			goto tr418
 		case 67:
-			goto st278
+			goto st279
 		case 76:
-			goto st307
+			goto st308
 		case 85:
-			goto st326
+			goto st327
 		case 99:
-			goto st278
+			goto st279
 		case 108:
-			goto st307
+			goto st308
 		case 117:
-			goto st326
+			goto st327
 		}
-		goto tr397
-tr416:
+		goto tr398
+tr417:
 //line sip.rl:462
 value=&msg.AcceptContact
-	goto st273
-tr431:
+	goto st274
+tr432:
 //line sip.rl:461
 value=&msg.Accept
-	goto st273
-tr450:
+	goto st274
+tr451:
 //line sip.rl:463
 value=&msg.AcceptEncoding
-	goto st273
-tr459:
+	goto st274
+tr460:
 //line sip.rl:464
 value=&msg.AcceptLanguage
-	goto st273
-tr470:
+	goto st274
+tr471:
 //line sip.rl:467
 value=&msg.AlertInfo
-	goto st273
-tr474:
+	goto st274
+tr475:
 //line sip.rl:465
 value=&msg.Allow
-	goto st273
-tr483:
+	goto st274
+tr484:
 //line sip.rl:466
 value=&msg.AllowEvents
-	goto st273
-tr503:
+	goto st274
+tr504:
 //line sip.rl:468
 value=&msg.AuthenticationInfo
-	goto st273
-tr513:
+	goto st274
+tr514:
 //line sip.rl:469
 value=&msg.Authorization
-	goto st273
-tr515:
+	goto st274
+tr516:
 //line sip.rl:486
 value=&msg.ReferredBy
-	goto st273
-tr545:
+	goto st274
+tr546:
 //line sip.rl:473
 value=&msg.CallInfo
-	goto st273
-tr578:
+	goto st274
+tr579:
 //line sip.rl:470
 value=&msg.ContentDisposition
-	goto st273
-tr587:
+	goto st274
+tr588:
 //line sip.rl:472
 value=&msg.ContentEncoding
-	goto st273
-tr597:
+	goto st274
+tr598:
 //line sip.rl:471
 value=&msg.ContentLanguage
-	goto st273
-tr632:
+	goto st274
+tr633:
 //line sip.rl:474
 value=&msg.Date
-	goto st273
-tr645:
+	goto st274
+tr646:
 //line sip.rl:475
 value=&msg.ErrorInfo
-	goto st273
-tr650:
+	goto st274
+tr651:
 //line sip.rl:476
 value=&msg.Event
-	goto st273
-tr679:
+	goto st274
+tr680:
 //line sip.rl:477
 value=&msg.InReplyTo
-	goto st273
-tr681:
+	goto st274
+tr682:
 //line sip.rl:491
 value=&msg.Supported
-	goto st273
-tr713:
+	goto st274
+tr714:
 //line sip.rl:479
 value=&msg.MIMEVersion
-	goto st273
-tr741:
+	goto st274
+tr742:
 //line sip.rl:480
 value=&msg.Organization
-	goto st273
-tr771:
+	goto st274
+tr772:
 //line sip.rl:481
 value=&msg.Priority
-	goto st273
-tr790:
+	goto st274
+tr791:
 //line sip.rl:482
 value=&msg.ProxyAuthenticate
-	goto st273
-tr800:
+	goto st274
+tr801:
 //line sip.rl:483
 value=&msg.ProxyAuthorization
-	goto st273
-tr808:
+	goto st274
+tr809:
 //line sip.rl:484
 value=&msg.ProxyRequire
-	goto st273
-tr810:
+	goto st274
+tr811:
 //line sip.rl:485
 value=&msg.ReferTo
-	goto st273
-tr860:
+	goto st274
+tr861:
 //line sip.rl:478
 value=&msg.ReplyTo
-	goto st273
-tr866:
+	goto st274
+tr867:
 //line sip.rl:487
 value=&msg.Require
-	goto st273
-tr876:
+	goto st274
+tr877:
 //line sip.rl:488
 value=&msg.RetryAfter
-	goto st273
-tr883:
+	goto st274
+tr884:
 //line sip.rl:490
 value=&msg.Subject
-	goto st273
-tr891:
+	goto st274
+tr892:
 //line sip.rl:489
 value=&msg.Server
-	goto st273
-tr915:
+	goto st274
+tr916:
 //line sip.rl:492
 value=&msg.Timestamp
-	goto st273
-tr928:
-//line sip.rl:493
+	goto st274
+tr929:
+//line sip.rl:493
 value=&msg.Unsupported
-	goto st273
-tr938:
+	goto st274
+tr939:
 //line sip.rl:494
 value=&msg.UserAgent
-	goto st273
-tr955:
+	goto st274
+tr956:
 //line sip.rl:495
 value=&msg.Warning
-	goto st273
-tr971:
+	goto st274
+tr972:
 //line sip.rl:496
 value=&msg.WWWAuthenticate
-	goto st273
-	st273:
+	goto st274
+	st274:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof274
 		}
-	st_case_273:
-//line msg_parse.go:9477
+	st_case_274:
+//line msg_parse.go:9538
 		switch data[p] {
 		case 9:
-			goto st273
+			goto st274
 		case 32:
-			goto st273
-		case 58:
 			goto st274
+		case 58:
+			goto st275
 		}
 		goto st0
-tr417:
+tr418:
 //line sip.rl:462
 value=&msg.AcceptContact
-	goto st274
-tr433:
+	goto st275
+tr434:
 //line sip.rl:461
 value=&msg.Accept
-	goto st274
-tr451:
+	goto st275
+tr452:
 //line sip.rl:463
 value=&msg.AcceptEncoding
-	goto st274
-tr460:
+	goto st275
+tr461:
 //line sip.rl:464
 value=&msg.AcceptLanguage
-	goto st274
-tr471:
+	goto st275
+tr472:
 //line sip.rl:467
 value=&msg.AlertInfo
-	goto st274
-tr476:
+	goto st275
+tr477:
 //line sip.rl:465
 value=&msg.Allow
-	goto st274
-tr484:
+	goto st275
+tr485:
 //line sip.rl:466
 value=&msg.AllowEvents
-	goto st274
-tr504:
+	goto st275
+tr505:
 //line sip.rl:468
 value=&msg.AuthenticationInfo
-	goto st274
-tr514:
+	goto st275
+tr515:
 //line sip.rl:469
 value=&msg.Authorization
-	goto st274
-tr516:
+	goto st275
+tr517:
 //line sip.rl:486
 value=&msg.ReferredBy
-	goto st274
-tr546:
+	goto st275
+tr547:
 //line sip.rl:473
 value=&msg.CallInfo
-	goto st274
-tr579:
+	goto st275
+tr580:
 //line sip.rl:470
 value=&msg.ContentDisposition
-	goto st274
-tr588:
+	goto st275
+tr589:
 //line sip.rl:472
 value=&msg.ContentEncoding
-	goto st274
-tr598:
+	goto st275
+tr599:
 //line sip.rl:471
 value=&msg.ContentLanguage
-	goto st274
-tr633:
+	goto st275
+tr634:
 //line sip.rl:474
 value=&msg.Date
-	goto st274
-tr646:
+	goto st275
+tr647:
 //line sip.rl:475
 value=&msg.ErrorInfo
-	goto st274
-tr651:
+	goto st275
+tr652:
 //line sip.rl:476
 value=&msg.Event
-	goto st274
-tr680:
+	goto st275
+tr681:
 //line sip.rl:477
 value=&msg.InReplyTo
-	goto st274
-tr682:
+	goto st275
+tr683:
 //line sip.rl:491
 value=&msg.Supported
-	goto st274
-tr714:
+	goto st275
+tr715:
 //line sip.rl:479
 value=&msg.MIMEVersion
-	goto st274
-tr742:
+	goto st275
+tr743:
 //line sip.rl:480
 value=&msg.Organization
-	goto st274
-tr772:
+	goto st275
+tr773:
 //line sip.rl:481
 value=&msg.Priority
-	goto st274
-tr791:
+	goto st275
+tr792:
 //line sip.rl:482
 value=&msg.ProxyAuthenticate
-	goto st274
-tr801:
+	goto st275
+tr802:
 //line sip.rl:483
 value=&msg.ProxyAuthorization
-	goto st274
-tr809:
+	goto st275
+tr810:
 //line sip.rl:484
 value=&msg.ProxyRequire
-	goto st274
-tr811:
+	goto st275
+tr812:
 //line sip.rl:485
 value=&msg.ReferTo
-	goto st274
-tr861:
+	goto st275
+tr862:
 //line sip.rl:478
 value=&msg.ReplyTo
-	goto st274
-tr867:
+	goto st275
+tr868:
 //line sip.rl:487
 value=&msg.Require
-	goto st274
-tr877:
+	goto st275
+tr878:
 //line sip.rl:488
 value=&msg.RetryAfter
-	goto st274
-tr884:
+	goto st275
+tr885:
 //line sip.rl:490
 value=&msg.Subject
-	goto st274
-tr892:
+	goto st275
+tr893:
 //line sip.rl:489
 value=&msg.Server
-	goto st274
-tr916:
+	goto st275
+tr917:
 //line sip.rl:492
 value=&msg.Timestamp
-	goto st274
-tr929:
+	goto st275
+tr930:
 //line sip.rl:493
 value=&msg.Unsupported
-	goto st274
-tr939:
+	goto st275
+tr940:
 //line sip.rl:494
 value=&msg.UserAgent
-	goto st274
-tr956:
+	goto st275
+tr957:
 //line sip.rl:495
 value=&msg.Warning
-	goto st274
-tr972:
+	goto st275
+tr973:
 //line sip.rl:496
 value=&msg.WWWAuthenticate
-	goto st274
-	st274:
+	goto st275
+	st275:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof275
 		}
-	st_case_274:
-//line msg_parse.go:9636
+	st_case_275:
+//line msg_parse.go:9697
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9651,89 +9712,21 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st274
+			goto st275
 		case 32:
-			goto st274
+			goto st275
 		case 269:
-			goto tr423
+			goto tr424
 		case 525:
-			goto st275
+			goto st276
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr423
+				goto tr424
 			}
 		default:
-			goto tr423
-		}
-		goto st0
-tr540:
-//line sip.rl:268
- {goto st270 } 
-	goto st758
-tr423:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:269
- {goto st253 } 
-	goto st758
-tr522:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:267
- {goto st34 } 
-	goto st758
-tr557:
-//line sip.rl:546
-value=nil
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st246 } 
-	goto st758
-tr943:
-//line sip.rl:141
-
-	via = new(Via)
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:270
- {goto st103 } 
-	goto st758
-tr973:
-//line sip.rl:76
-
-	{p++; cs = 758; goto _out }
-
-	goto st758
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-//line msg_parse.go:9720
-		goto st0
-	st275:
-		if p++; p == pe {
-			goto _test_eof275
-		}
-	st_case_275:
-		if data[p] == 10 {
-			goto st276
+			goto tr424
 		}
 		goto st0
 	st276:
@@ -9741,10 +9734,7 @@ tr973:
 			goto _test_eof276
 		}
 	st_case_276:
-		switch data[p] {
-		case 9:
-			goto st277
-		case 32:
+		if data[p] == 10 {
 			goto st277
 		}
 		goto st0
@@ -9755,943 +9745,941 @@ tr973:
 	st_case_277:
 		switch data[p] {
 		case 9:
-			goto st277
+			goto st278
 		case 32:
-			goto st277
+			goto st278
 		}
-		goto tr423
+		goto st0
 	st278:
 		if p++; p == pe {
 			goto _test_eof278
 		}
 	st_case_278:
 		switch data[p] {
-		case 67:
-			goto st279
-		case 99:
-			goto st279
+		case 9:
+			goto st278
+		case 32:
+			goto st278
 		}
-		goto tr397
+		goto tr424
 	st279:
 		if p++; p == pe {
 			goto _test_eof279
 		}
 	st_case_279:
 		switch data[p] {
-		case 69:
+		case 67:
 			goto st280
-		case 101:
+		case 99:
 			goto st280
 		}
-		goto tr397
+		goto tr398
 	st280:
 		if p++; p == pe {
 			goto _test_eof280
 		}
 	st_case_280:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st281
-		case 112:
+		case 101:
 			goto st281
 		}
-		goto tr397
+		goto tr398
 	st281:
 		if p++; p == pe {
 			goto _test_eof281
 		}
 	st_case_281:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st282
-		case 116:
+		case 112:
 			goto st282
 		}
-		goto tr397
+		goto tr398
 	st282:
 		if p++; p == pe {
 			goto _test_eof282
 		}
 	st_case_282:
 		switch data[p] {
-		case 9:
-			goto tr431
-		case 32:
-			goto tr431
-		case 45:
+		case 84:
+			goto st283
+		case 116:
 			goto st283
-		case 58:
-			goto tr433
 		}
-		goto tr397
+		goto tr398
 	st283:
 		if p++; p == pe {
 			goto _test_eof283
 		}
 	st_case_283:
 		switch data[p] {
-		case 67:
-			goto st284
-		case 69:
-			goto st291
-		case 76:
-			goto st299
-		case 99:
+		case 9:
+			goto tr432
+		case 32:
+			goto tr432
+		case 45:
 			goto st284
-		case 101:
-			goto st291
-		case 108:
-			goto st299
+		case 58:
+			goto tr434
 		}
-		goto tr397
+		goto tr398
 	st284:
 		if p++; p == pe {
 			goto _test_eof284
 		}
 	st_case_284:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st285
-		case 111:
+		case 69:
+			goto st292
+		case 76:
+			goto st300
+		case 99:
 			goto st285
+		case 101:
+			goto st292
+		case 108:
+			goto st300
 		}
-		goto tr397
+		goto tr398
 	st285:
 		if p++; p == pe {
 			goto _test_eof285
 		}
 	st_case_285:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st286
-		case 110:
+		case 111:
 			goto st286
 		}
-		goto tr397
+		goto tr398
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st287
-		case 116:
+		case 110:
 			goto st287
 		}
-		goto tr397
+		goto tr398
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st288
-		case 97:
+		case 116:
 			goto st288
 		}
-		goto tr397
+		goto tr398
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st289
-		case 99:
+		case 97:
 			goto st289
 		}
-		goto tr397
+		goto tr398
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st290
-		case 116:
+		case 99:
 			goto st290
 		}
-		goto tr397
+		goto tr398
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 9:
-			goto tr416
-		case 32:
-			goto tr416
-		case 58:
-			goto tr417
+		case 84:
+			goto st291
+		case 116:
+			goto st291
 		}
-		goto tr397
+		goto tr398
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 78:
-			goto st292
-		case 110:
-			goto st292
+		case 9:
+			goto tr417
+		case 32:
+			goto tr417
+		case 58:
+			goto tr418
 		}
-		goto tr397
+		goto tr398
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st293
-		case 99:
+		case 110:
 			goto st293
 		}
-		goto tr397
+		goto tr398
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st294
-		case 111:
+		case 99:
 			goto st294
 		}
-		goto tr397
+		goto tr398
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st295
-		case 100:
+		case 111:
 			goto st295
 		}
-		goto tr397
+		goto tr398
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st296
-		case 105:
+		case 100:
 			goto st296
 		}
-		goto tr397
+		goto tr398
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st297
-		case 110:
+		case 105:
 			goto st297
 		}
-		goto tr397
+		goto tr398
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st298
-		case 103:
+		case 110:
 			goto st298
 		}
-		goto tr397
+		goto tr398
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 9:
-			goto tr450
-		case 32:
-			goto tr450
-		case 58:
-			goto tr451
+		case 71:
+			goto st299
+		case 103:
+			goto st299
 		}
-		goto tr397
+		goto tr398
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 65:
-			goto st300
-		case 97:
-			goto st300
+		case 9:
+			goto tr451
+		case 32:
+			goto tr451
+		case 58:
+			goto tr452
 		}
-		goto tr397
+		goto tr398
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st301
-		case 110:
+		case 97:
 			goto st301
 		}
-		goto tr397
+		goto tr398
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st302
-		case 103:
+		case 110:
 			goto st302
 		}
-		goto tr397
+		goto tr398
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st303
-		case 117:
+		case 103:
 			goto st303
 		}
-		goto tr397
+		goto tr398
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st304
-		case 97:
+		case 117:
 			goto st304
 		}
-		goto tr397
+		goto tr398
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st305
-		case 103:
+		case 97:
 			goto st305
 		}
-		goto tr397
+		goto tr398
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st306
-		case 101:
+		case 103:
 			goto st306
 		}
-		goto tr397
+		goto tr398
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 9:
-			goto tr459
-		case 32:
-			goto tr459
-		case 58:
-			goto tr460
+		case 69:
+			goto st307
+		case 101:
+			goto st307
 		}
-		goto tr397
+		goto tr398
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 69:
-			goto st308
-		case 76:
-			goto st316
-		case 101:
-			goto st308
-		case 108:
-			goto st316
+		case 9:
+			goto tr460
+		case 32:
+			goto tr460
+		case 58:
+			goto tr461
 		}
-		goto tr397
+		goto tr398
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st309
-		case 114:
+		case 76:
+			goto st317
+		case 101:
 			goto st309
+		case 108:
+			goto st317
 		}
-		goto tr397
+		goto tr398
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st310
-		case 116:
+		case 114:
 			goto st310
 		}
-		goto tr397
+		goto tr398
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st311
+		case 116:
 			goto st311
 		}
-		goto tr397
+		goto tr398
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
-		switch data[p] {
-		case 73:
-			goto st312
-		case 105:
+		if data[p] == 45 {
 			goto st312
 		}
-		goto tr397
+		goto tr398
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st313
-		case 110:
+		case 105:
 			goto st313
 		}
-		goto tr397
+		goto tr398
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st314
-		case 102:
+		case 110:
 			goto st314
 		}
-		goto tr397
+		goto tr398
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st315
-		case 111:
+		case 102:
 			goto st315
 		}
-		goto tr397
+		goto tr398
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 79:
+			goto st316
+		case 111:
+			goto st316
 		}
-		goto tr397
+		goto tr398
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 79:
-			goto st317
-		case 111:
-			goto st317
+		case 9:
+			goto tr471
+		case 32:
+			goto tr471
+		case 58:
+			goto tr472
 		}
-		goto tr397
+		goto tr398
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 87:
+		case 79:
 			goto st318
-		case 119:
+		case 111:
 			goto st318
 		}
-		goto tr397
+		goto tr398
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 9:
-			goto tr474
-		case 32:
-			goto tr474
-		case 45:
+		case 87:
+			goto st319
+		case 119:
 			goto st319
-		case 58:
-			goto tr476
 		}
-		goto tr397
+		goto tr398
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 69:
-			goto st320
-		case 101:
+		case 9:
+			goto tr475
+		case 32:
+			goto tr475
+		case 45:
 			goto st320
+		case 58:
+			goto tr477
 		}
-		goto tr397
+		goto tr398
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st321
-		case 118:
+		case 101:
 			goto st321
 		}
-		goto tr397
+		goto tr398
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st322
-		case 101:
+		case 118:
 			goto st322
 		}
-		goto tr397
+		goto tr398
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st323
-		case 110:
+		case 101:
 			goto st323
 		}
-		goto tr397
+		goto tr398
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st324
-		case 116:
+		case 110:
 			goto st324
 		}
-		goto tr397
+		goto tr398
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st325
-		case 115:
+		case 116:
 			goto st325
 		}
-		goto tr397
+		goto tr398
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 9:
-			goto tr483
-		case 32:
-			goto tr483
-		case 58:
-			goto tr484
+		case 83:
+			goto st326
+		case 115:
+			goto st326
 		}
-		goto tr397
+		goto tr398
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 84:
-			goto st327
-		case 116:
-			goto st327
+		case 9:
+			goto tr484
+		case 32:
+			goto tr484
+		case 58:
+			goto tr485
 		}
-		goto tr397
+		goto tr398
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st328
-		case 104:
+		case 116:
 			goto st328
 		}
-		goto tr397
+		goto tr398
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st329
-		case 79:
-			goto st344
-		case 101:
+		case 104:
 			goto st329
-		case 111:
-			goto st344
 		}
-		goto tr397
+		goto tr398
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st330
-		case 110:
+		case 79:
+			goto st345
+		case 101:
 			goto st330
+		case 111:
+			goto st345
 		}
-		goto tr397
+		goto tr398
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st331
-		case 116:
+		case 110:
 			goto st331
 		}
-		goto tr397
+		goto tr398
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st332
-		case 105:
+		case 116:
 			goto st332
 		}
-		goto tr397
+		goto tr398
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st333
-		case 99:
+		case 105:
 			goto st333
 		}
-		goto tr397
+		goto tr398
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st334
-		case 97:
+		case 99:
 			goto st334
 		}
-		goto tr397
+		goto tr398
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st335
-		case 116:
+		case 97:
 			goto st335
 		}
-		goto tr397
+		goto tr398
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st336
-		case 105:
+		case 116:
 			goto st336
 		}
-		goto tr397
+		goto tr398
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st337
-		case 111:
+		case 105:
 			goto st337
 		}
-		goto tr397
+		goto tr398
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st338
-		case 110:
+		case 111:
 			goto st338
 		}
-		goto tr397
+		goto tr398
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st339
+		case 110:
 			goto st339
 		}
-		goto tr397
+		goto tr398
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
-		switch data[p] {
-		case 73:
-			goto st340
-		case 105:
+		if data[p] == 45 {
 			goto st340
 		}
-		goto tr397
+		goto tr398
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st341
-		case 110:
+		case 105:
 			goto st341
 		}
-		goto tr397
+		goto tr398
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st342
-		case 102:
+		case 110:
 			goto st342
 		}
-		goto tr397
+		goto tr398
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st343
-		case 111:
+		case 102:
 			goto st343
 		}
-		goto tr397
+		goto tr398
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 79:
+			goto st344
+		case 111:
+			goto st344
 		}
-		goto tr397
+		goto tr398
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 82:
-			goto st345
-		case 114:
-			goto st345
+		case 9:
+			goto tr504
+		case 32:
+			goto tr504
+		case 58:
+			goto tr505
 		}
-		goto tr397
+		goto tr398
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st346
-		case 105:
+		case 114:
 			goto st346
 		}
-		goto tr397
+		goto tr398
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st347
-		case 122:
+		case 105:
 			goto st347
 		}
-		goto tr397
+		goto tr398
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st348
-		case 97:
+		case 122:
 			goto st348
 		}
-		goto tr397
+		goto tr398
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st349
-		case 116:
+		case 97:
 			goto st349
 		}
-		goto tr397
+		goto tr398
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st350
-		case 105:
+		case 116:
 			goto st350
 		}
-		goto tr397
+		goto tr398
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st351
-		case 111:
+		case 105:
 			goto st351
 		}
-		goto tr397
+		goto tr398
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st352
-		case 110:
+		case 111:
 			goto st352
 		}
-		goto tr397
+		goto tr398
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 9:
-			goto tr513
-		case 32:
-			goto tr513
-		case 58:
-			goto tr514
+		case 78:
+			goto st353
+		case 110:
+			goto st353
 		}
-		goto tr397
+		goto tr398
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -10699,13 +10687,13 @@ tr973:
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr515
+			goto tr514
 		case 32:
-			goto tr515
+			goto tr514
 		case 58:
-			goto tr516
+			goto tr515
 		}
-		goto tr397
+		goto tr398
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
@@ -10713,44 +10701,58 @@ tr973:
 	st_case_354:
 		switch data[p] {
 		case 9:
-			goto st355
+			goto tr516
 		case 32:
-			goto st355
+			goto tr516
 		case 58:
+			goto tr517
+		}
+		goto tr398
+	st355:
+		if p++; p == pe {
+			goto _test_eof355
+		}
+	st_case_355:
+		switch data[p] {
+		case 9:
+			goto st356
+		case 32:
 			goto st356
+		case 58:
+			goto st357
 		case 65:
-			goto st360
+			goto st361
 		case 79:
-			goto st378
+			goto st379
 		case 83:
-			goto st435
+			goto st436
 		case 97:
-			goto st360
+			goto st361
 		case 111:
-			goto st378
+			goto st379
 		case 115:
-			goto st435
+			goto st436
 		}
-		goto tr397
-	st355:
+		goto tr398
+	st356:
 		if p++; p == pe {
-			goto _test_eof355
+			goto _test_eof356
 		}
-	st_case_355:
+	st_case_356:
 		switch data[p] {
 		case 9:
-			goto st355
+			goto st356
 		case 32:
-			goto st355
-		case 58:
 			goto st356
+		case 58:
+			goto st357
 		}
 		goto st0
-	st356:
+	st357:
 		if p++; p == pe {
-			goto _test_eof356
+			goto _test_eof357
 		}
-	st_case_356:
+	st_case_357:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10760,30 +10762,21 @@ tr973:
 		}
 		switch _widec {
 		case 9:
-			goto st356
+			goto st357
 		case 32:
-			goto st356
+			goto st357
 		case 269:
-			goto tr522
+			goto tr523
 		case 525:
-			goto st357
+			goto st358
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr522
+				goto tr523
 			}
 		default:
-			goto tr522
-		}
-		goto st0
-	st357:
-		if p++; p == pe {
-			goto _test_eof357
-		}
-	st_case_357:
-		if data[p] == 10 {
-			goto st358
+			goto tr523
 		}
 		goto st0
 	st358:
@@ -10791,10 +10784,7 @@ tr973:
 			goto _test_eof358
 		}
 	st_case_358:
-		switch data[p] {
-		case 9:
-			goto st359
-		case 32:
+		if data[p] == 10 {
 			goto st359
 		}
 		goto st0
@@ -10805,23 +10795,23 @@ tr973:
 	st_case_359:
 		switch data[p] {
 		case 9:
-			goto st359
+			goto st360
 		case 32:
-			goto st359
+			goto st360
 		}
-		goto tr522
+		goto st0
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
 		}
 	st_case_360:
 		switch data[p] {
-		case 76:
-			goto st361
-		case 108:
-			goto st361
+		case 9:
+			goto st360
+		case 32:
+			goto st360
 		}
-		goto tr397
+		goto tr523
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
@@ -10833,58 +10823,56 @@ tr973:
 		case 108:
 			goto st362
 		}
-		goto tr397
+		goto tr398
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
 		}
 	st_case_362:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st363
+		case 108:
 			goto st363
 		}
-		goto tr397
+		goto tr398
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
 		}
 	st_case_363:
-		switch data[p] {
-		case 73:
-			goto st364
-		case 105:
+		if data[p] == 45 {
 			goto st364
 		}
-		goto tr397
+		goto tr398
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
 		}
 	st_case_364:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st365
-		case 78:
-			goto st375
-		case 100:
+		case 105:
 			goto st365
-		case 110:
-			goto st375
 		}
-		goto tr397
+		goto tr398
 	st365:
 		if p++; p == pe {
 			goto _test_eof365
 		}
 	st_case_365:
 		switch data[p] {
-		case 9:
+		case 68:
 			goto st366
-		case 32:
+		case 78:
+			goto st376
+		case 100:
 			goto st366
-		case 58:
-			goto st367
+		case 110:
+			goto st376
 		}
-		goto tr397
+		goto tr398
 	st366:
 		if p++; p == pe {
 			goto _test_eof366
@@ -10892,18 +10880,32 @@ tr973:
 	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st367
 		case 32:
-			goto st366
-		case 58:
 			goto st367
+		case 58:
+			goto st368
 		}
-		goto st0
+		goto tr398
 	st367:
 		if p++; p == pe {
 			goto _test_eof367
 		}
 	st_case_367:
+		switch data[p] {
+		case 9:
+			goto st367
+		case 32:
+			goto st367
+		case 58:
+			goto st368
+		}
+		goto st0
+	st368:
+		if p++; p == pe {
+			goto _test_eof368
+		}
+	st_case_368:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10913,59 +10915,59 @@ tr973:
 		}
 		switch _widec {
 		case 9:
-			goto st367
+			goto st368
 		case 32:
-			goto st367
+			goto st368
 		case 37:
-			goto tr534
+			goto tr535
 		case 60:
-			goto tr534
+			goto tr535
 		case 525:
-			goto st372
+			goto st373
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr534
+					goto tr535
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr534
+					goto tr535
 				}
 			default:
-				goto tr534
+				goto tr535
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr534
+					goto tr535
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr534
+					goto tr535
 				}
 			default:
-				goto tr534
+				goto tr535
 			}
 		default:
-			goto tr534
+			goto tr535
 		}
 		goto st0
-tr534:
+tr535:
 //line sip.rl:80
 
 	mark = p
 
-	goto st368
-	st368:
+	goto st369
+	st369:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof369
 		}
-	st_case_368:
-//line msg_parse.go:10960
+	st_case_369:
+//line msg_parse.go:10962
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10975,88 +10977,88 @@ tr534:
 		}
 		switch _widec {
 		case 37:
-			goto st368
+			goto st369
 		case 60:
-			goto st368
-		case 64:
 			goto st369
+		case 64:
+			goto st370
 		case 269:
-			goto tr538
+			goto tr539
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st368
+					goto st369
 				}
 			case _widec >= 33:
-				goto st368
+				goto st369
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st368
+					goto st369
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st368
+					goto st369
 				}
 			default:
-				goto st368
+				goto st369
 			}
 		default:
-			goto st368
+			goto st369
 		}
 		goto st0
-	st369:
+	st370:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof370
 		}
-	st_case_369:
+	st_case_370:
 		switch data[p] {
 		case 37:
-			goto st370
+			goto st371
 		case 60:
-			goto st370
+			goto st371
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st370
+					goto st371
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st370
+					goto st371
 				}
 			default:
-				goto st370
+				goto st371
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st370
+					goto st371
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st370
+					goto st371
 				}
 			default:
-				goto st370
+				goto st371
 			}
 		default:
-			goto st370
+			goto st371
 		}
 		goto st0
-	st370:
+	st371:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof371
 		}
-	st_case_370:
+	st_case_371:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11066,72 +11068,63 @@ tr534:
 		}
 		switch _widec {
 		case 37:
-			goto st370
+			goto st371
 		case 60:
-			goto st370
+			goto st371
 		case 269:
-			goto tr538
+			goto tr539
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st370
+					goto st371
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st370
+					goto st371
 				}
 			default:
-				goto st370
+				goto st371
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st370
+					goto st371
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st370
+					goto st371
 				}
 			default:
-				goto st370
+				goto st371
 			}
 		default:
-			goto st370
+			goto st371
 		}
 		goto st0
-tr538:
+tr539:
 //line sip.rl:226
 
 	msg.CallID = string(data[mark:p])
 
-	goto st371
-tr624:
+	goto st372
+tr625:
 //line sip.rl:244
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st371
-	st371:
-		if p++; p == pe {
-			goto _test_eof371
-		}
-	st_case_371:
-//line msg_parse.go:11115
-		if data[p] == 10 {
-			goto tr540
-		}
-		goto st0
+	goto st372
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
 		}
 	st_case_372:
+//line msg_parse.go:11117
 		if data[p] == 10 {
-			goto st373
+			goto tr541
 		}
 		goto st0
 	st373:
@@ -11139,10 +11132,7 @@ tr624:
 			goto _test_eof373
 		}
 	st_case_373:
-		switch data[p] {
-		case 9:
-			goto st374
-		case 32:
+		if data[p] == 10 {
 			goto st374
 		}
 		goto st0
@@ -11153,238 +11143,250 @@ tr624:
 	st_case_374:
 		switch data[p] {
 		case 9:
-			goto st374
+			goto st375
 		case 32:
-			goto st374
+			goto st375
+		}
+		goto st0
+	st375:
+		if p++; p == pe {
+			goto _test_eof375
+		}
+	st_case_375:
+		switch data[p] {
+		case 9:
+			goto st375
+		case 32:
+			goto st375
 		case 37:
-			goto tr534
+			goto tr535
 		case 60:
-			goto tr534
+			goto tr535
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr534
+					goto tr535
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr534
+					goto tr535
 				}
 			default:
-				goto tr534
+				goto tr535
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr534
+					goto tr535
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr534
+					goto tr535
 				}
 			default:
-				goto tr534
+				goto tr535
 			}
 		default:
-			goto tr534
+			goto tr535
 		}
 		goto st0
-	st375:
-		if p++; p == pe {
-			goto _test_eof375
-		}
-	st_case_375:
-		switch data[p] {
-		case 70:
-			goto st376
-		case 102:
-			goto st376
-		}
-		goto tr397
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
 		}
 	st_case_376:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st377
-		case 111:
+		case 102:
 			goto st377
 		}
-		goto tr397
+		goto tr398
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
 		switch data[p] {
-		case 9:
-			goto tr545
-		case 32:
-			goto tr545
-		case 58:
-			goto tr546
+		case 79:
+			goto st378
+		case 111:
+			goto st378
 		}
-		goto tr397
+		goto tr398
 	st378:
 		if p++; p == pe {
 			goto _test_eof378
 		}
 	st_case_378:
 		switch data[p] {
-		case 78:
-			goto st379
-		case 110:
-			goto st379
+		case 9:
+			goto tr546
+		case 32:
+			goto tr546
+		case 58:
+			goto tr547
 		}
-		goto tr397
+		goto tr398
 	st379:
 		if p++; p == pe {
 			goto _test_eof379
 		}
 	st_case_379:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st380
-		case 116:
+		case 110:
 			goto st380
 		}
-		goto tr397
+		goto tr398
 	st380:
 		if p++; p == pe {
 			goto _test_eof380
 		}
 	st_case_380:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st381
-		case 69:
-			goto st389
-		case 97:
+		case 116:
 			goto st381
-		case 101:
-			goto st389
 		}
-		goto tr397
+		goto tr398
 	st381:
 		if p++; p == pe {
 			goto _test_eof381
 		}
 	st_case_381:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st382
-		case 99:
+		case 69:
+			goto st390
+		case 97:
 			goto st382
+		case 101:
+			goto st390
 		}
-		goto tr397
+		goto tr398
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st383
-		case 116:
+		case 99:
 			goto st383
 		}
-		goto tr397
+		goto tr398
 	st383:
 		if p++; p == pe {
 			goto _test_eof383
 		}
 	st_case_383:
+		switch data[p] {
+		case 84:
+			goto st384
+		case 116:
+			goto st384
+		}
+		goto tr398
+	st384:
+		if p++; p == pe {
+			goto _test_eof384
+		}
+	st_case_384:
 		switch data[p] {
 		case 9:
-			goto tr553
+			goto tr554
 		case 32:
-			goto tr553
-		case 58:
 			goto tr554
+		case 58:
+			goto tr555
 		}
-		goto tr397
-tr553:
+		goto tr398
+tr554:
 //line sip.rl:448
 addrp=lastAddr(&msg.Contact)
-	goto st384
-tr664:
+	goto st385
+tr665:
 //line sip.rl:449
 addrp=lastAddr(&msg.From)
-	goto st384
-tr762:
+	goto st385
+tr763:
 //line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st384
-tr829:
+	goto st385
+tr830:
 //line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
-	goto st384
-tr853:
+	goto st385
+tr854:
 //line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st384
-tr881:
+	goto st385
+tr882:
 //line sip.rl:453
 addrp=lastAddr(&msg.Route)
-	goto st384
-tr904:
+	goto st385
+tr905:
 //line sip.rl:454
 addrp=lastAddr(&msg.To)
-	goto st384
-	st384:
+	goto st385
+	st385:
 		if p++; p == pe {
-			goto _test_eof384
+			goto _test_eof385
 		}
-	st_case_384:
-//line msg_parse.go:11336
+	st_case_385:
+//line msg_parse.go:11338
 		switch data[p] {
 		case 9:
-			goto st384
-		case 32:
-			goto st384
-		case 58:
 			goto st385
+		case 32:
+			goto st385
+		case 58:
+			goto st386
 		}
 		goto st0
-tr554:
+tr555:
 //line sip.rl:448
 addrp=lastAddr(&msg.Contact)
-	goto st385
-tr665:
+	goto st386
+tr666:
 //line sip.rl:449
 addrp=lastAddr(&msg.From)
-	goto st385
-tr763:
+	goto st386
+tr764:
 //line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st385
-tr830:
+	goto st386
+tr831:
 //line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
-	goto st385
-tr854:
+	goto st386
+tr855:
 //line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st385
-tr882:
+	goto st386
+tr883:
 //line sip.rl:453
 addrp=lastAddr(&msg.Route)
-	goto st385
-tr905:
+	goto st386
+tr906:
 //line sip.rl:454
 addrp=lastAddr(&msg.To)
-	goto st385
-	st385:
+	goto st386
+	st386:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof386
 		}
-	st_case_385:
-//line msg_parse.go:11379
+	st_case_386:
+//line msg_parse.go:11381
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11394,30 +11396,21 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st385
+			goto st386
 		case 32:
-			goto st385
+			goto st386
 		case 269:
-			goto tr557
+			goto tr558
 		case 525:
-			goto st386
+			goto st387
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr557
+				goto tr558
 			}
 		default:
-			goto tr557
-		}
-		goto st0
-	st386:
-		if p++; p == pe {
-			goto _test_eof386
-		}
-	st_case_386:
-		if data[p] == 10 {
-			goto st387
+			goto tr558
 		}
 		goto st0
 	st387:
@@ -11425,10 +11418,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof387
 		}
 	st_case_387:
-		switch data[p] {
-		case 9:
-			goto st388
-		case 32:
+		if data[p] == 10 {
 			goto st388
 		}
 		goto st0
@@ -11439,464 +11429,462 @@ addrp=lastAddr(&msg.To)
 	st_case_388:
 		switch data[p] {
 		case 9:
-			goto st388
+			goto st389
 		case 32:
-			goto st388
+			goto st389
 		}
-		goto tr557
+		goto st0
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 78:
-			goto st390
-		case 110:
-			goto st390
+		case 9:
+			goto st389
+		case 32:
+			goto st389
 		}
-		goto tr397
+		goto tr558
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st391
-		case 116:
+		case 110:
 			goto st391
 		}
-		goto tr397
+		goto tr398
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st392
+		case 116:
 			goto st392
 		}
-		goto tr397
+		goto tr398
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
-		switch data[p] {
-		case 68:
-			goto st393
-		case 69:
-			goto st404
-		case 76:
-			goto st412
-		case 84:
-			goto st431
-		case 100:
+		if data[p] == 45 {
 			goto st393
-		case 101:
-			goto st404
-		case 108:
-			goto st412
-		case 116:
-			goto st431
 		}
-		goto tr397
+		goto tr398
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st394
-		case 105:
+		case 69:
+			goto st405
+		case 76:
+			goto st413
+		case 84:
+			goto st432
+		case 100:
 			goto st394
+		case 101:
+			goto st405
+		case 108:
+			goto st413
+		case 116:
+			goto st432
 		}
-		goto tr397
+		goto tr398
 	st394:
 		if p++; p == pe {
 			goto _test_eof394
 		}
 	st_case_394:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st395
-		case 115:
+		case 105:
 			goto st395
 		}
-		goto tr397
+		goto tr398
 	st395:
 		if p++; p == pe {
 			goto _test_eof395
 		}
 	st_case_395:
 		switch data[p] {
-		case 80:
+		case 83:
 			goto st396
-		case 112:
+		case 115:
 			goto st396
 		}
-		goto tr397
+		goto tr398
 	st396:
 		if p++; p == pe {
 			goto _test_eof396
 		}
 	st_case_396:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st397
-		case 111:
+		case 112:
 			goto st397
 		}
-		goto tr397
+		goto tr398
 	st397:
 		if p++; p == pe {
 			goto _test_eof397
 		}
 	st_case_397:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st398
-		case 115:
+		case 111:
 			goto st398
 		}
-		goto tr397
+		goto tr398
 	st398:
 		if p++; p == pe {
 			goto _test_eof398
 		}
 	st_case_398:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st399
-		case 105:
+		case 115:
 			goto st399
 		}
-		goto tr397
+		goto tr398
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st400
-		case 116:
+		case 105:
 			goto st400
 		}
-		goto tr397
+		goto tr398
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st401
-		case 105:
+		case 116:
 			goto st401
 		}
-		goto tr397
+		goto tr398
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st402
-		case 111:
+		case 105:
 			goto st402
 		}
-		goto tr397
+		goto tr398
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st403
-		case 110:
+		case 111:
 			goto st403
 		}
-		goto tr397
+		goto tr398
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
 		}
 	st_case_403:
 		switch data[p] {
-		case 9:
-			goto tr578
-		case 32:
-			goto tr578
-		case 58:
-			goto tr579
+		case 78:
+			goto st404
+		case 110:
+			goto st404
 		}
-		goto tr397
+		goto tr398
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 78:
-			goto st405
-		case 110:
-			goto st405
+		case 9:
+			goto tr579
+		case 32:
+			goto tr579
+		case 58:
+			goto tr580
 		}
-		goto tr397
+		goto tr398
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st406
-		case 99:
+		case 110:
 			goto st406
 		}
-		goto tr397
+		goto tr398
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st407
-		case 111:
+		case 99:
 			goto st407
 		}
-		goto tr397
+		goto tr398
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
 		}
 	st_case_407:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st408
-		case 100:
+		case 111:
 			goto st408
 		}
-		goto tr397
+		goto tr398
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st409
-		case 105:
+		case 100:
 			goto st409
 		}
-		goto tr397
+		goto tr398
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
 		}
 	st_case_409:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st410
-		case 110:
+		case 105:
 			goto st410
 		}
-		goto tr397
+		goto tr398
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st411
-		case 103:
+		case 110:
 			goto st411
 		}
-		goto tr397
+		goto tr398
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 9:
-			goto tr587
-		case 32:
-			goto tr587
-		case 58:
-			goto tr588
+		case 71:
+			goto st412
+		case 103:
+			goto st412
 		}
-		goto tr397
+		goto tr398
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 65:
-			goto st413
-		case 69:
-			goto st420
-		case 97:
-			goto st413
-		case 101:
-			goto st420
+		case 9:
+			goto tr588
+		case 32:
+			goto tr588
+		case 58:
+			goto tr589
 		}
-		goto tr397
+		goto tr398
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st414
-		case 110:
+		case 69:
+			goto st421
+		case 97:
 			goto st414
+		case 101:
+			goto st421
 		}
-		goto tr397
+		goto tr398
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st415
-		case 103:
+		case 110:
 			goto st415
 		}
-		goto tr397
+		goto tr398
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st416
-		case 117:
+		case 103:
 			goto st416
 		}
-		goto tr397
+		goto tr398
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st417
-		case 97:
+		case 117:
 			goto st417
 		}
-		goto tr397
+		goto tr398
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st418
-		case 103:
+		case 97:
 			goto st418
 		}
-		goto tr397
+		goto tr398
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st419
-		case 101:
+		case 103:
 			goto st419
 		}
-		goto tr397
+		goto tr398
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 9:
-			goto tr597
-		case 32:
-			goto tr597
-		case 58:
-			goto tr598
+		case 69:
+			goto st420
+		case 101:
+			goto st420
 		}
-		goto tr397
+		goto tr398
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 78:
-			goto st421
-		case 110:
-			goto st421
+		case 9:
+			goto tr598
+		case 32:
+			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr397
+		goto tr398
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st422
-		case 103:
+		case 110:
 			goto st422
 		}
-		goto tr397
+		goto tr398
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 84:
+		case 71:
 			goto st423
-		case 116:
+		case 103:
 			goto st423
 		}
-		goto tr397
+		goto tr398
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st424
-		case 104:
+		case 116:
 			goto st424
 		}
-		goto tr397
+		goto tr398
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
 		switch data[p] {
-		case 9:
+		case 72:
 			goto st425
-		case 32:
+		case 104:
 			goto st425
-		case 58:
-			goto st426
 		}
-		goto tr397
+		goto tr398
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
@@ -11904,18 +11892,32 @@ addrp=lastAddr(&msg.To)
 	st_case_425:
 		switch data[p] {
 		case 9:
-			goto st425
+			goto st426
 		case 32:
-			goto st425
-		case 58:
 			goto st426
+		case 58:
+			goto st427
 		}
-		goto st0
+		goto tr398
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
 		}
 	st_case_426:
+		switch data[p] {
+		case 9:
+			goto st426
+		case 32:
+			goto st426
+		case 58:
+			goto st427
+		}
+		goto st0
+	st427:
+		if p++; p == pe {
+			goto _test_eof427
+		}
+	st_case_427:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11925,17 +11927,17 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st426
+			goto st427
 		case 32:
-			goto st426
+			goto st427
 		case 525:
-			goto st428
+			goto st429
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr604
+			goto tr605
 		}
 		goto st0
-tr604:
+tr605:
 //line sip.rl:504
 clen=0
 //line sip.rl:230
@@ -11943,20 +11945,20 @@ clen=0
 	clen, err = addDigit(clen, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st427
-tr606:
+	goto st428
+tr607:
 //line sip.rl:230
 
 	clen, err = addDigit(clen, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st427
-	st427:
+	goto st428
+	st428:
 		if p++; p == pe {
-			goto _test_eof427
+			goto _test_eof428
 		}
-	st_case_427:
-//line msg_parse.go:11951
+	st_case_428:
+//line msg_parse.go:11953
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11965,19 +11967,10 @@ tr606:
 			}
 		}
 		if _widec == 269 {
-			goto st371
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr606
-		}
-		goto st0
-	st428:
-		if p++; p == pe {
-			goto _test_eof428
-		}
-	st_case_428:
-		if data[p] == 10 {
-			goto st429
+			goto tr607
 		}
 		goto st0
 	st429:
@@ -11985,10 +11978,7 @@ tr606:
 			goto _test_eof429
 		}
 	st_case_429:
-		switch data[p] {
-		case 9:
-			goto st430
-		case 32:
+		if data[p] == 10 {
 			goto st430
 		}
 		goto st0
@@ -11999,12 +11989,9 @@ tr606:
 	st_case_430:
 		switch data[p] {
 		case 9:
-			goto st430
+			goto st431
 		case 32:
-			goto st430
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr604
+			goto st431
 		}
 		goto st0
 	st431:
@@ -12013,88 +12000,89 @@ tr606:
 		}
 	st_case_431:
 		switch data[p] {
-		case 89:
-			goto st432
-		case 121:
-			goto st432
+		case 9:
+			goto st431
+		case 32:
+			goto st431
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr605
 		}
-		goto tr397
+		goto st0
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
 		}
 	st_case_432:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st433
-		case 112:
+		case 121:
 			goto st433
 		}
-		goto tr397
+		goto tr398
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
 		}
 	st_case_433:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st434
-		case 101:
+		case 112:
 			goto st434
 		}
-		goto tr397
+		goto tr398
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
 		}
 	st_case_434:
 		switch data[p] {
-		case 9:
-			goto st355
-		case 32:
-			goto st355
-		case 58:
-			goto st356
+		case 69:
+			goto st435
+		case 101:
+			goto st435
 		}
-		goto tr397
+		goto tr398
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
 		}
 	st_case_435:
 		switch data[p] {
-		case 69:
-			goto st436
-		case 101:
-			goto st436
+		case 9:
+			goto st356
+		case 32:
+			goto st356
+		case 58:
+			goto st357
 		}
-		goto tr397
+		goto tr398
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st437
-		case 113:
+		case 101:
 			goto st437
 		}
-		goto tr397
+		goto tr398
 	st437:
 		if p++; p == pe {
 			goto _test_eof437
 		}
 	st_case_437:
 		switch data[p] {
-		case 9:
+		case 81:
 			goto st438
-		case 32:
+		case 113:
 			goto st438
-		case 58:
-			goto st439
 		}
-		goto tr397
+		goto tr398
 	st438:
 		if p++; p == pe {
 			goto _test_eof438
@@ -12102,18 +12090,32 @@ tr606:
 	st_case_438:
 		switch data[p] {
 		case 9:
-			goto st438
+			goto st439
 		case 32:
-			goto st438
-		case 58:
 			goto st439
+		case 58:
+			goto st440
 		}
-		goto st0
+		goto tr398
 	st439:
 		if p++; p == pe {
 			goto _test_eof439
 		}
 	st_case_439:
+		switch data[p] {
+		case 9:
+			goto st439
+		case 32:
+			goto st439
+		case 58:
+			goto st440
+		}
+		goto st0
+	st440:
+		if p++; p == pe {
+			goto _test_eof440
+		}
+	st_case_440:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12123,17 +12125,17 @@ tr606:
 		}
 		switch _widec {
 		case 9:
-			goto st439
+			goto st440
 		case 32:
-			goto st439
+			goto st440
 		case 525:
-			goto st446
+			goto st447
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr617
+			goto tr618
 		}
 		goto st0
-tr617:
+tr618:
 //line sip.rl:505
 msg.CSeq=0
 //line sip.rl:239
@@ -12141,20 +12143,20 @@ msg.CSeq=0
 	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st440
-tr620:
+	goto st441
+tr621:
 //line sip.rl:239
 
 	msg.CSeq, err = addDigit(msg.CSeq, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st440
-	st440:
+	goto st441
+	st441:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof441
 		}
-	st_case_440:
-//line msg_parse.go:12149
+	st_case_441:
+//line msg_parse.go:12151
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12164,21 +12166,21 @@ tr620:
 		}
 		switch _widec {
 		case 9:
-			goto st441
+			goto st442
 		case 32:
-			goto st441
+			goto st442
 		case 525:
-			goto st443
+			goto st444
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr620
+			goto tr621
 		}
 		goto st0
-	st441:
+	st442:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof442
 		}
-	st_case_441:
+	st_case_442:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12188,55 +12190,55 @@ tr620:
 		}
 		switch _widec {
 		case 9:
-			goto st441
+			goto st442
 		case 32:
-			goto st441
+			goto st442
 		case 33:
-			goto tr622
+			goto tr623
 		case 37:
-			goto tr622
+			goto tr623
 		case 39:
-			goto tr622
+			goto tr623
 		case 126:
-			goto tr622
+			goto tr623
 		case 525:
-			goto st443
+			goto st444
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr622
+					goto tr623
 				}
 			case _widec >= 42:
-				goto tr622
+				goto tr623
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr622
+					goto tr623
 				}
 			case _widec >= 65:
-				goto tr622
+				goto tr623
 			}
 		default:
-			goto tr622
+			goto tr623
 		}
 		goto st0
-tr622:
+tr623:
 //line sip.rl:80
 
 	mark = p
 
-	goto st442
-	st442:
+	goto st443
+	st443:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof443
 		}
-	st_case_442:
-//line msg_parse.go:12231
+	st_case_443:
+//line msg_parse.go:12233
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12246,109 +12248,100 @@ tr622:
 		}
 		switch _widec {
 		case 33:
-			goto st442
+			goto st443
 		case 37:
-			goto st442
+			goto st443
 		case 39:
-			goto st442
+			goto st443
 		case 126:
-			goto st442
+			goto st443
 		case 269:
-			goto tr624
+			goto tr625
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st442
+					goto st443
 				}
 			case _widec >= 42:
-				goto st442
+				goto st443
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st442
+					goto st443
 				}
 			case _widec >= 65:
-				goto st442
+				goto st443
 			}
 		default:
-			goto st442
+			goto st443
 		}
 		goto st0
-	st443:
+	st444:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof444
 		}
-	st_case_443:
+	st_case_444:
 		if data[p] == 10 {
-			goto st444
+			goto st445
 		}
 		goto st0
-	st444:
+	st445:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof445
 		}
-	st_case_444:
+	st_case_445:
 		switch data[p] {
 		case 9:
-			goto st445
+			goto st446
 		case 32:
-			goto st445
+			goto st446
 		}
 		goto st0
-	st445:
+	st446:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof446
 		}
-	st_case_445:
+	st_case_446:
 		switch data[p] {
 		case 9:
-			goto st445
+			goto st446
 		case 32:
-			goto st445
+			goto st446
 		case 33:
-			goto tr622
+			goto tr623
 		case 37:
-			goto tr622
+			goto tr623
 		case 39:
-			goto tr622
+			goto tr623
 		case 126:
-			goto tr622
+			goto tr623
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr622
+					goto tr623
 				}
 			case data[p] >= 42:
-				goto tr622
+				goto tr623
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr622
+					goto tr623
 				}
 			case data[p] >= 65:
-				goto tr622
+				goto tr623
 			}
 		default:
-			goto tr622
-		}
-		goto st0
-	st446:
-		if p++; p == pe {
-			goto _test_eof446
-		}
-	st_case_446:
-		if data[p] == 10 {
-			goto st447
+			goto tr623
 		}
 		goto st0
 	st447:
@@ -12356,10 +12349,7 @@ tr622:
 			goto _test_eof447
 		}
 	st_case_447:
-		switch data[p] {
-		case 9:
-			goto st448
-		case 32:
+		if data[p] == 10 {
 			goto st448
 		}
 		goto st0
@@ -12370,12 +12360,9 @@ tr622:
 	st_case_448:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st449
 		case 32:
-			goto st448
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr617
+			goto st449
 		}
 		goto st0
 	st449:
@@ -12384,307 +12371,308 @@ tr622:
 		}
 	st_case_449:
 		switch data[p] {
-		case 65:
-			goto st450
-		case 97:
-			goto st450
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr618
 		}
-		goto tr397
+		goto st0
 	st450:
 		if p++; p == pe {
 			goto _test_eof450
 		}
 	st_case_450:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st451
-		case 116:
+		case 97:
 			goto st451
 		}
-		goto tr397
+		goto tr398
 	st451:
 		if p++; p == pe {
 			goto _test_eof451
 		}
 	st_case_451:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st452
-		case 101:
+		case 116:
 			goto st452
 		}
-		goto tr397
+		goto tr398
 	st452:
 		if p++; p == pe {
 			goto _test_eof452
 		}
 	st_case_452:
 		switch data[p] {
-		case 9:
-			goto tr632
-		case 32:
-			goto tr632
-		case 58:
-			goto tr633
+		case 69:
+			goto st453
+		case 101:
+			goto st453
 		}
-		goto tr397
+		goto tr398
 	st453:
 		if p++; p == pe {
 			goto _test_eof453
 		}
-	st_case_453:
-		switch data[p] {
-		case 9:
-			goto tr587
-		case 32:
-			goto tr587
-		case 58:
-			goto tr588
-		case 82:
-			goto st454
-		case 86:
-			goto st463
-		case 88:
-			goto st467
-		case 114:
-			goto st454
-		case 118:
-			goto st463
-		case 120:
-			goto st467
-		}
-		goto tr397
+	st_case_453:
+		switch data[p] {
+		case 9:
+			goto tr633
+		case 32:
+			goto tr633
+		case 58:
+			goto tr634
+		}
+		goto tr398
 	st454:
 		if p++; p == pe {
 			goto _test_eof454
 		}
 	st_case_454:
 		switch data[p] {
+		case 9:
+			goto tr588
+		case 32:
+			goto tr588
+		case 58:
+			goto tr589
 		case 82:
 			goto st455
+		case 86:
+			goto st464
+		case 88:
+			goto st468
 		case 114:
 			goto st455
+		case 118:
+			goto st464
+		case 120:
+			goto st468
 		}
-		goto tr397
+		goto tr398
 	st455:
 		if p++; p == pe {
 			goto _test_eof455
 		}
 	st_case_455:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st456
-		case 111:
+		case 114:
 			goto st456
 		}
-		goto tr397
+		goto tr398
 	st456:
 		if p++; p == pe {
 			goto _test_eof456
 		}
 	st_case_456:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st457
-		case 114:
+		case 111:
 			goto st457
 		}
-		goto tr397
+		goto tr398
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st458
+		case 114:
 			goto st458
 		}
-		goto tr397
+		goto tr398
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
-		switch data[p] {
-		case 73:
-			goto st459
-		case 105:
+		if data[p] == 45 {
 			goto st459
 		}
-		goto tr397
+		goto tr398
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st460
-		case 110:
+		case 105:
 			goto st460
 		}
-		goto tr397
+		goto tr398
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st461
-		case 102:
+		case 110:
 			goto st461
 		}
-		goto tr397
+		goto tr398
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st462
-		case 111:
+		case 102:
 			goto st462
 		}
-		goto tr397
+		goto tr398
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 9:
-			goto tr645
-		case 32:
-			goto tr645
-		case 58:
-			goto tr646
+		case 79:
+			goto st463
+		case 111:
+			goto st463
 		}
-		goto tr397
+		goto tr398
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
 	st_case_463:
 		switch data[p] {
-		case 69:
-			goto st464
-		case 101:
-			goto st464
+		case 9:
+			goto tr646
+		case 32:
+			goto tr646
+		case 58:
+			goto tr647
 		}
-		goto tr397
+		goto tr398
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st465
-		case 110:
+		case 101:
 			goto st465
 		}
-		goto tr397
+		goto tr398
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st466
-		case 116:
+		case 110:
 			goto st466
 		}
-		goto tr397
+		goto tr398
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 9:
-			goto tr650
-		case 32:
-			goto tr650
-		case 58:
-			goto tr651
+		case 84:
+			goto st467
+		case 116:
+			goto st467
 		}
-		goto tr397
+		goto tr398
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
 		switch data[p] {
-		case 80:
-			goto st468
-		case 112:
-			goto st468
+		case 9:
+			goto tr651
+		case 32:
+			goto tr651
+		case 58:
+			goto tr652
 		}
-		goto tr397
+		goto tr398
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st469
-		case 105:
+		case 112:
 			goto st469
 		}
-		goto tr397
+		goto tr398
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st470
-		case 114:
+		case 105:
 			goto st470
 		}
-		goto tr397
+		goto tr398
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st471
-		case 101:
+		case 114:
 			goto st471
 		}
-		goto tr397
+		goto tr398
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st472
-		case 115:
+		case 101:
 			goto st472
 		}
-		goto tr397
+		goto tr398
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st473
-		case 32:
+		case 115:
 			goto st473
-		case 58:
-			goto st474
 		}
-		goto tr397
+		goto tr398
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
@@ -12692,18 +12680,32 @@ tr622:
 	st_case_473:
 		switch data[p] {
 		case 9:
-			goto st473
+			goto st474
 		case 32:
-			goto st473
-		case 58:
 			goto st474
+		case 58:
+			goto st475
 		}
-		goto st0
+		goto tr398
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
+		switch data[p] {
+		case 9:
+			goto st474
+		case 32:
+			goto st474
+		case 58:
+			goto st475
+		}
+		goto st0
+	st475:
+		if p++; p == pe {
+			goto _test_eof475
+		}
+	st_case_475:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12713,17 +12715,17 @@ tr622:
 		}
 		switch _widec {
 		case 9:
-			goto st474
+			goto st475
 		case 32:
-			goto st474
+			goto st475
 		case 525:
-			goto st476
+			goto st477
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr659
+			goto tr660
 		}
 		goto st0
-tr659:
+tr660:
 //line sip.rl:506
 msg.Expires=0
 //line sip.rl:248
@@ -12731,20 +12733,20 @@ msg.Expires=0
 	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st475
-tr661:
+	goto st476
+tr662:
 //line sip.rl:248
 
 	msg.Expires, err = addDigit(msg.Expires, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st475
-	st475:
+	goto st476
+	st476:
 		if p++; p == pe {
-			goto _test_eof475
+			goto _test_eof476
 		}
-	st_case_475:
-//line msg_parse.go:12739
+	st_case_476:
+//line msg_parse.go:12741
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12753,19 +12755,10 @@ tr661:
 			}
 		}
 		if _widec == 269 {
-			goto st371
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr661
-		}
-		goto st0
-	st476:
-		if p++; p == pe {
-			goto _test_eof476
-		}
-	st_case_476:
-		if data[p] == 10 {
-			goto st477
+			goto tr662
 		}
 		goto st0
 	st477:
@@ -12773,10 +12766,7 @@ tr661:
 			goto _test_eof477
 		}
 	st_case_477:
-		switch data[p] {
-		case 9:
-			goto st478
-		case 32:
+		if data[p] == 10 {
 			goto st478
 		}
 		goto st0
@@ -12787,12 +12777,9 @@ tr661:
 	st_case_478:
 		switch data[p] {
 		case 9:
-			goto st478
+			goto st479
 		case 32:
-			goto st478
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr659
+			goto st479
 		}
 		goto st0
 	st479:
@@ -12802,55 +12789,56 @@ tr661:
 	st_case_479:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto st479
 		case 32:
-			goto tr664
-		case 58:
-			goto tr665
-		case 82:
-			goto st480
-		case 114:
-			goto st480
+			goto st479
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr660
 		}
-		goto tr397
+		goto st0
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 79:
+		case 9:
+			goto tr665
+		case 32:
+			goto tr665
+		case 58:
+			goto tr666
+		case 82:
 			goto st481
-		case 111:
+		case 114:
 			goto st481
 		}
-		goto tr397
+		goto tr398
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 77:
+		case 79:
 			goto st482
-		case 109:
+		case 111:
 			goto st482
 		}
-		goto tr397
+		goto tr398
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 9:
-			goto tr664
-		case 32:
-			goto tr664
-		case 58:
-			goto tr665
+		case 77:
+			goto st483
+		case 109:
+			goto st483
 		}
-		goto tr397
+		goto tr398
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -12858,133 +12846,133 @@ tr661:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto tr665
 		case 32:
-			goto st366
+			goto tr665
 		case 58:
-			goto st367
-		case 78:
-			goto st484
-		case 110:
-			goto st484
+			goto tr666
 		}
-		goto tr397
+		goto tr398
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st367
+		case 32:
+			goto st367
+		case 58:
+			goto st368
+		case 78:
+			goto st485
+		case 110:
 			goto st485
 		}
-		goto tr397
+		goto tr398
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
 	st_case_485:
-		switch data[p] {
-		case 82:
-			goto st486
-		case 114:
+		if data[p] == 45 {
 			goto st486
 		}
-		goto tr397
+		goto tr398
 	st486:
 		if p++; p == pe {
 			goto _test_eof486
 		}
 	st_case_486:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st487
-		case 101:
+		case 114:
 			goto st487
 		}
-		goto tr397
+		goto tr398
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st488
-		case 112:
+		case 101:
 			goto st488
 		}
-		goto tr397
+		goto tr398
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
 	st_case_488:
 		switch data[p] {
-		case 76:
+		case 80:
 			goto st489
-		case 108:
+		case 112:
 			goto st489
 		}
-		goto tr397
+		goto tr398
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st490
-		case 121:
+		case 108:
 			goto st490
 		}
-		goto tr397
+		goto tr398
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st491
+		case 121:
 			goto st491
 		}
-		goto tr397
+		goto tr398
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
-		switch data[p] {
-		case 84:
-			goto st492
-		case 116:
+		if data[p] == 45 {
 			goto st492
 		}
-		goto tr397
+		goto tr398
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st493
-		case 111:
+		case 116:
 			goto st493
 		}
-		goto tr397
+		goto tr398
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
 		}
 	st_case_493:
 		switch data[p] {
-		case 9:
-			goto tr679
-		case 32:
-			goto tr679
-		case 58:
-			goto tr680
+		case 79:
+			goto st494
+		case 111:
+			goto st494
 		}
-		goto tr397
+		goto tr398
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -12992,13 +12980,13 @@ tr661:
 	st_case_494:
 		switch data[p] {
 		case 9:
-			goto tr681
+			goto tr680
 		case 32:
-			goto tr681
+			goto tr680
 		case 58:
-			goto tr682
+			goto tr681
 		}
-		goto tr397
+		goto tr398
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
@@ -13006,152 +12994,152 @@ tr661:
 	st_case_495:
 		switch data[p] {
 		case 9:
-			goto tr553
+			goto tr682
 		case 32:
-			goto tr553
+			goto tr682
 		case 58:
-			goto tr554
-		case 65:
-			goto st496
-		case 73:
-			goto st513
-		case 97:
-			goto st496
-		case 105:
-			goto st513
+			goto tr683
 		}
-		goto tr397
+		goto tr398
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 88:
+		case 9:
+			goto tr554
+		case 32:
+			goto tr554
+		case 58:
+			goto tr555
+		case 65:
 			goto st497
-		case 120:
+		case 73:
+			goto st514
+		case 97:
 			goto st497
+		case 105:
+			goto st514
 		}
-		goto tr397
+		goto tr398
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
-		if data[p] == 45 {
+		switch data[p] {
+		case 88:
+			goto st498
+		case 120:
 			goto st498
 		}
-		goto tr397
+		goto tr398
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
-		switch data[p] {
-		case 70:
-			goto st499
-		case 102:
+		if data[p] == 45 {
 			goto st499
 		}
-		goto tr397
+		goto tr398
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st500
-		case 111:
+		case 102:
 			goto st500
 		}
-		goto tr397
+		goto tr398
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st501
-		case 114:
+		case 111:
 			goto st501
 		}
-		goto tr397
+		goto tr398
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
 		switch data[p] {
-		case 87:
+		case 82:
 			goto st502
-		case 119:
+		case 114:
 			goto st502
 		}
-		goto tr397
+		goto tr398
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 65:
+		case 87:
 			goto st503
-		case 97:
+		case 119:
 			goto st503
 		}
-		goto tr397
+		goto tr398
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st504
-		case 114:
+		case 97:
 			goto st504
 		}
-		goto tr397
+		goto tr398
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st505
-		case 100:
+		case 114:
 			goto st505
 		}
-		goto tr397
+		goto tr398
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 83:
+		case 68:
 			goto st506
-		case 115:
+		case 100:
 			goto st506
 		}
-		goto tr397
+		goto tr398
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st507
-		case 32:
+		case 115:
 			goto st507
-		case 58:
-			goto st508
 		}
-		goto tr397
+		goto tr398
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
@@ -13159,18 +13147,32 @@ tr661:
 	st_case_507:
 		switch data[p] {
 		case 9:
-			goto st507
+			goto st508
 		case 32:
-			goto st507
-		case 58:
 			goto st508
+		case 58:
+			goto st509
 		}
-		goto st0
+		goto tr398
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
+		switch data[p] {
+		case 9:
+			goto st508
+		case 32:
+			goto st508
+		case 58:
+			goto st509
+		}
+		goto st0
+	st509:
+		if p++; p == pe {
+			goto _test_eof509
+		}
+	st_case_509:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13180,17 +13182,17 @@ tr661:
 		}
 		switch _widec {
 		case 9:
-			goto st508
+			goto st509
 		case 32:
-			goto st508
+			goto st509
 		case 525:
-			goto st510
+			goto st511
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr697
+			goto tr698
 		}
 		goto st0
-tr697:
+tr698:
 //line sip.rl:507
 msg.MaxForwards=0
 //line sip.rl:253
@@ -13198,20 +13200,20 @@ msg.MaxForwards=0
 	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st509
-tr699:
+	goto st510
+tr700:
 //line sip.rl:253
 
 	msg.MaxForwards, err = addDigit(msg.MaxForwards, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st509
-	st509:
+	goto st510
+	st510:
 		if p++; p == pe {
-			goto _test_eof509
+			goto _test_eof510
 		}
-	st_case_509:
-//line msg_parse.go:13206
+	st_case_510:
+//line msg_parse.go:13208
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13220,19 +13222,10 @@ tr699:
 			}
 		}
 		if _widec == 269 {
-			goto st371
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr699
-		}
-		goto st0
-	st510:
-		if p++; p == pe {
-			goto _test_eof510
-		}
-	st_case_510:
-		if data[p] == 10 {
-			goto st511
+			goto tr700
 		}
 		goto st0
 	st511:
@@ -13240,10 +13233,7 @@ tr699:
 			goto _test_eof511
 		}
 	st_case_511:
-		switch data[p] {
-		case 9:
-			goto st512
-		case 32:
+		if data[p] == 10 {
 			goto st512
 		}
 		goto st0
@@ -13254,12 +13244,9 @@ tr699:
 	st_case_512:
 		switch data[p] {
 		case 9:
-			goto st512
+			goto st513
 		case 32:
-			goto st512
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr697
+			goto st513
 		}
 		goto st0
 	st513:
@@ -13268,242 +13255,243 @@ tr699:
 		}
 	st_case_513:
 		switch data[p] {
-		case 77:
-			goto st514
-		case 78:
-			goto st524
-		case 109:
-			goto st514
-		case 110:
-			goto st524
+		case 9:
+			goto st513
+		case 32:
+			goto st513
 		}
-		goto tr397
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr698
+		}
+		goto st0
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st515
-		case 101:
+		case 78:
+			goto st525
+		case 109:
 			goto st515
+		case 110:
+			goto st525
 		}
-		goto tr397
+		goto tr398
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st516
+		case 101:
 			goto st516
 		}
-		goto tr397
+		goto tr398
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
-		switch data[p] {
-		case 86:
-			goto st517
-		case 118:
+		if data[p] == 45 {
 			goto st517
 		}
-		goto tr397
+		goto tr398
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st518
-		case 101:
+		case 118:
 			goto st518
 		}
-		goto tr397
+		goto tr398
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st519
-		case 114:
+		case 101:
 			goto st519
 		}
-		goto tr397
+		goto tr398
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st520
-		case 115:
+		case 114:
 			goto st520
 		}
-		goto tr397
+		goto tr398
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st521
-		case 105:
+		case 115:
 			goto st521
 		}
-		goto tr397
+		goto tr398
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st522
-		case 111:
+		case 105:
 			goto st522
 		}
-		goto tr397
+		goto tr398
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st523
-		case 110:
+		case 111:
 			goto st523
 		}
-		goto tr397
+		goto tr398
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
-			goto tr713
-		case 32:
-			goto tr713
-		case 58:
-			goto tr714
+		case 78:
+			goto st524
+		case 110:
+			goto st524
 		}
-		goto tr397
+		goto tr398
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
-		if data[p] == 45 {
-			goto st525
+		switch data[p] {
+		case 9:
+			goto tr714
+		case 32:
+			goto tr714
+		case 58:
+			goto tr715
 		}
-		goto tr397
+		goto tr398
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		switch data[p] {
-		case 69:
-			goto st526
-		case 101:
+		if data[p] == 45 {
 			goto st526
 		}
-		goto tr397
+		goto tr398
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st527
-		case 120:
+		case 101:
 			goto st527
 		}
-		goto tr397
+		goto tr398
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 80:
+		case 88:
 			goto st528
-		case 112:
+		case 120:
 			goto st528
 		}
-		goto tr397
+		goto tr398
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st529
-		case 105:
+		case 112:
 			goto st529
 		}
-		goto tr397
+		goto tr398
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st530
-		case 114:
+		case 105:
 			goto st530
 		}
-		goto tr397
+		goto tr398
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st531
-		case 101:
+		case 114:
 			goto st531
 		}
-		goto tr397
+		goto tr398
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st532
-		case 115:
+		case 101:
 			goto st532
 		}
-		goto tr397
+		goto tr398
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st533
-		case 32:
+		case 115:
 			goto st533
-		case 58:
-			goto st534
 		}
-		goto tr397
+		goto tr398
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
@@ -13511,18 +13499,32 @@ tr699:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto st533
+			goto st534
 		case 32:
-			goto st533
-		case 58:
 			goto st534
+		case 58:
+			goto st535
 		}
-		goto st0
+		goto tr398
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
+		switch data[p] {
+		case 9:
+			goto st534
+		case 32:
+			goto st534
+		case 58:
+			goto st535
+		}
+		goto st0
+	st535:
+		if p++; p == pe {
+			goto _test_eof535
+		}
+	st_case_535:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13532,17 +13534,17 @@ tr699:
 		}
 		switch _widec {
 		case 9:
-			goto st534
+			goto st535
 		case 32:
-			goto st534
+			goto st535
 		case 525:
-			goto st536
+			goto st537
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+			goto tr726
 		}
 		goto st0
-tr725:
+tr726:
 //line sip.rl:508
 msg.MinExpires=0
 //line sip.rl:258
@@ -13550,20 +13552,20 @@ msg.MinExpires=0
 	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st535
-tr727:
+	goto st536
+tr728:
 //line sip.rl:258
 
 	msg.MinExpires, err = addDigit(msg.MinExpires, data[p], maxInt)
 	if err != nil { return nil, err }
 
-	goto st535
-	st535:
+	goto st536
+	st536:
 		if p++; p == pe {
-			goto _test_eof535
+			goto _test_eof536
 		}
-	st_case_535:
-//line msg_parse.go:13558
+	st_case_536:
+//line msg_parse.go:13560
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13572,19 +13574,10 @@ tr727:
 			}
 		}
 		if _widec == 269 {
-			goto st371
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr727
-		}
-		goto st0
-	st536:
-		if p++; p == pe {
-			goto _test_eof536
-		}
-	st_case_536:
-		if data[p] == 10 {
-			goto st537
+			goto tr728
 		}
 		goto st0
 	st537:
@@ -13592,10 +13585,7 @@ tr727:
 			goto _test_eof537
 		}
 	st_case_537:
-		switch data[p] {
-		case 9:
-			goto st538
-		case 32:
+		if data[p] == 10 {
 			goto st538
 		}
 		goto st0
@@ -13606,12 +13596,9 @@ tr727:
 	st_case_538:
 		switch data[p] {
 		case 9:
-			goto st538
+			goto st539
 		case 32:
-			goto st538
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr725
+			goto st539
 		}
 		goto st0
 	st539:
@@ -13621,189 +13608,192 @@ tr727:
 	st_case_539:
 		switch data[p] {
 		case 9:
-			goto tr650
+			goto st539
 		case 32:
-			goto tr650
-		case 58:
-			goto tr651
-		case 82:
-			goto st540
-		case 114:
-			goto st540
+			goto st539
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr726
 		}
-		goto tr397
+		goto st0
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 71:
+		case 9:
+			goto tr651
+		case 32:
+			goto tr651
+		case 58:
+			goto tr652
+		case 82:
 			goto st541
-		case 103:
+		case 114:
 			goto st541
 		}
-		goto tr397
+		goto tr398
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st542
-		case 97:
+		case 103:
 			goto st542
 		}
-		goto tr397
+		goto tr398
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st543
-		case 110:
+		case 97:
 			goto st543
 		}
-		goto tr397
+		goto tr398
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st544
-		case 105:
+		case 110:
 			goto st544
 		}
-		goto tr397
+		goto tr398
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st545
-		case 122:
+		case 105:
 			goto st545
 		}
-		goto tr397
+		goto tr398
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st546
-		case 97:
+		case 122:
 			goto st546
 		}
-		goto tr397
+		goto tr398
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st547
-		case 116:
+		case 97:
 			goto st547
 		}
-		goto tr397
+		goto tr398
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st548
-		case 105:
+		case 116:
 			goto st548
 		}
-		goto tr397
+		goto tr398
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st549
-		case 111:
+		case 105:
 			goto st549
 		}
-		goto tr397
+		goto tr398
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st550
-		case 110:
+		case 111:
 			goto st550
 		}
-		goto tr397
+		goto tr398
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto tr741
-		case 32:
-			goto tr741
-		case 58:
-			goto tr742
+		case 78:
+			goto st551
+		case 110:
+			goto st551
 		}
-		goto tr397
+		goto tr398
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 45:
-			goto st552
-		case 82:
-			goto st570
-		case 114:
-			goto st570
+		case 9:
+			goto tr742
+		case 32:
+			goto tr742
+		case 58:
+			goto tr743
 		}
-		goto tr397
+		goto tr398
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 65:
-			goto st553
-		case 97:
+		case 45:
 			goto st553
+		case 82:
+			goto st571
+		case 114:
+			goto st571
 		}
-		goto tr397
+		goto tr398
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st554
-		case 115:
+		case 97:
 			goto st554
 		}
-		goto tr397
+		goto tr398
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
@@ -13815,671 +13805,669 @@ tr727:
 		case 115:
 			goto st555
 		}
-		goto tr397
+		goto tr398
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st556
-		case 101:
+		case 115:
 			goto st556
 		}
-		goto tr397
+		goto tr398
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st557
-		case 114:
+		case 101:
 			goto st557
 		}
-		goto tr397
+		goto tr398
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st558
-		case 116:
+		case 114:
 			goto st558
 		}
-		goto tr397
+		goto tr398
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st559
-		case 101:
+		case 116:
 			goto st559
 		}
-		goto tr397
+		goto tr398
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st560
-		case 100:
+		case 101:
 			goto st560
 		}
-		goto tr397
+		goto tr398
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st561
+		case 100:
 			goto st561
 		}
-		goto tr397
+		goto tr398
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
-		switch data[p] {
-		case 73:
-			goto st562
-		case 105:
+		if data[p] == 45 {
 			goto st562
 		}
-		goto tr397
+		goto tr398
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st563
-		case 100:
+		case 105:
 			goto st563
 		}
-		goto tr397
+		goto tr398
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st564
-		case 101:
+		case 100:
 			goto st564
 		}
-		goto tr397
+		goto tr398
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st565
-		case 110:
+		case 101:
 			goto st565
 		}
-		goto tr397
+		goto tr398
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st566
-		case 116:
+		case 110:
 			goto st566
 		}
-		goto tr397
+		goto tr398
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st567
-		case 105:
+		case 116:
 			goto st567
 		}
-		goto tr397
+		goto tr398
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st568
-		case 116:
+		case 105:
 			goto st568
 		}
-		goto tr397
+		goto tr398
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st569
-		case 121:
+		case 116:
 			goto st569
 		}
-		goto tr397
+		goto tr398
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 9:
-			goto tr762
-		case 32:
-			goto tr762
-		case 58:
-			goto tr763
+		case 89:
+			goto st570
+		case 121:
+			goto st570
 		}
-		goto tr397
+		goto tr398
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
 		switch data[p] {
-		case 73:
-			goto st571
-		case 79:
-			goto st577
-		case 105:
-			goto st571
-		case 111:
-			goto st577
+		case 9:
+			goto tr763
+		case 32:
+			goto tr763
+		case 58:
+			goto tr764
 		}
-		goto tr397
+		goto tr398
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
 		switch data[p] {
+		case 73:
+			goto st572
 		case 79:
+			goto st578
+		case 105:
 			goto st572
 		case 111:
-			goto st572
+			goto st578
 		}
-		goto tr397
+		goto tr398
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st573
-		case 114:
+		case 111:
 			goto st573
 		}
-		goto tr397
+		goto tr398
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st574
-		case 105:
+		case 114:
 			goto st574
 		}
-		goto tr397
+		goto tr398
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st575
-		case 116:
+		case 105:
 			goto st575
 		}
-		goto tr397
+		goto tr398
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st576
-		case 121:
+		case 116:
 			goto st576
 		}
-		goto tr397
+		goto tr398
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 9:
-			goto tr771
-		case 32:
-			goto tr771
-		case 58:
-			goto tr772
+		case 89:
+			goto st577
+		case 121:
+			goto st577
 		}
-		goto tr397
+		goto tr398
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 88:
-			goto st578
-		case 120:
-			goto st578
+		case 9:
+			goto tr772
+		case 32:
+			goto tr772
+		case 58:
+			goto tr773
 		}
-		goto tr397
+		goto tr398
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
 		switch data[p] {
-		case 89:
+		case 88:
 			goto st579
-		case 121:
+		case 120:
 			goto st579
 		}
-		goto tr397
+		goto tr398
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st580
+		case 121:
 			goto st580
 		}
-		goto tr397
+		goto tr398
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
-		switch data[p] {
-		case 65:
-			goto st581
-		case 82:
-			goto st602
-		case 97:
+		if data[p] == 45 {
 			goto st581
-		case 114:
-			goto st602
 		}
-		goto tr397
+		goto tr398
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st582
-		case 117:
+		case 82:
+			goto st603
+		case 97:
 			goto st582
+		case 114:
+			goto st603
 		}
-		goto tr397
+		goto tr398
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st583
-		case 116:
+		case 117:
 			goto st583
 		}
-		goto tr397
+		goto tr398
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st584
-		case 104:
+		case 116:
 			goto st584
 		}
-		goto tr397
+		goto tr398
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st585
-		case 79:
-			goto st593
-		case 101:
+		case 104:
 			goto st585
-		case 111:
-			goto st593
 		}
-		goto tr397
+		goto tr398
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st586
-		case 110:
+		case 79:
+			goto st594
+		case 101:
 			goto st586
+		case 111:
+			goto st594
 		}
-		goto tr397
+		goto tr398
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st587
-		case 116:
+		case 110:
 			goto st587
 		}
-		goto tr397
+		goto tr398
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st588
-		case 105:
+		case 116:
 			goto st588
 		}
-		goto tr397
+		goto tr398
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st589
-		case 99:
+		case 105:
 			goto st589
 		}
-		goto tr397
+		goto tr398
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st590
-		case 97:
+		case 99:
 			goto st590
 		}
-		goto tr397
+		goto tr398
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st591
-		case 116:
+		case 97:
 			goto st591
 		}
-		goto tr397
+		goto tr398
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st592
-		case 101:
+		case 116:
 			goto st592
 		}
-		goto tr397
+		goto tr398
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 9:
-			goto tr790
-		case 32:
-			goto tr790
-		case 58:
-			goto tr791
+		case 69:
+			goto st593
+		case 101:
+			goto st593
 		}
-		goto tr397
+		goto tr398
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 82:
-			goto st594
-		case 114:
-			goto st594
+		case 9:
+			goto tr791
+		case 32:
+			goto tr791
+		case 58:
+			goto tr792
 		}
-		goto tr397
+		goto tr398
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st595
-		case 105:
+		case 114:
 			goto st595
 		}
-		goto tr397
+		goto tr398
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st596
-		case 122:
+		case 105:
 			goto st596
 		}
-		goto tr397
+		goto tr398
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st597
-		case 97:
+		case 122:
 			goto st597
 		}
-		goto tr397
+		goto tr398
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st598
-		case 116:
+		case 97:
 			goto st598
 		}
-		goto tr397
+		goto tr398
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st599
-		case 105:
+		case 116:
 			goto st599
 		}
-		goto tr397
+		goto tr398
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st600
-		case 111:
+		case 105:
 			goto st600
 		}
-		goto tr397
+		goto tr398
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st601
-		case 110:
+		case 111:
 			goto st601
 		}
-		goto tr397
+		goto tr398
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 9:
-			goto tr800
-		case 32:
-			goto tr800
-		case 58:
-			goto tr801
+		case 78:
+			goto st602
+		case 110:
+			goto st602
 		}
-		goto tr397
+		goto tr398
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 69:
-			goto st603
-		case 101:
-			goto st603
+		case 9:
+			goto tr801
+		case 32:
+			goto tr801
+		case 58:
+			goto tr802
 		}
-		goto tr397
+		goto tr398
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st604
-		case 113:
+		case 101:
 			goto st604
 		}
-		goto tr397
+		goto tr398
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 85:
+		case 81:
 			goto st605
-		case 117:
+		case 113:
 			goto st605
 		}
-		goto tr397
+		goto tr398
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st606
-		case 105:
+		case 117:
 			goto st606
 		}
-		goto tr397
+		goto tr398
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st607
-		case 114:
+		case 105:
 			goto st607
 		}
-		goto tr397
+		goto tr398
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st608
-		case 101:
+		case 114:
 			goto st608
 		}
-		goto tr397
+		goto tr398
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 9:
-			goto tr808
-		case 32:
-			goto tr808
-		case 58:
-			goto tr809
+		case 69:
+			goto st609
+		case 101:
+			goto st609
 		}
-		goto tr397
+		goto tr398
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
@@ -14487,747 +14475,747 @@ tr727:
 	st_case_609:
 		switch data[p] {
 		case 9:
-			goto tr810
+			goto tr809
 		case 32:
-			goto tr810
+			goto tr809
 		case 58:
+			goto tr810
+		}
+		goto tr398
+	st610:
+		if p++; p == pe {
+			goto _test_eof610
+		}
+	st_case_610:
+		switch data[p] {
+		case 9:
 			goto tr811
+		case 32:
+			goto tr811
+		case 58:
+			goto tr812
 		case 69:
-			goto st610
+			goto st611
 		case 79:
-			goto st665
+			goto st666
 		case 101:
-			goto st610
+			goto st611
 		case 111:
-			goto st665
+			goto st666
 		}
-		goto tr397
-	st610:
+		goto tr398
+	st611:
 		if p++; p == pe {
-			goto _test_eof610
+			goto _test_eof611
 		}
-	st_case_610:
+	st_case_611:
 		switch data[p] {
 		case 67:
-			goto st611
+			goto st612
 		case 70:
-			goto st621
+			goto st622
 		case 77:
-			goto st632
+			goto st633
 		case 80:
-			goto st645
+			goto st646
 		case 81:
-			goto st651
+			goto st652
 		case 84:
-			goto st656
+			goto st657
 		case 99:
-			goto st611
+			goto st612
 		case 102:
-			goto st621
+			goto st622
 		case 109:
-			goto st632
+			goto st633
 		case 112:
-			goto st645
+			goto st646
 		case 113:
-			goto st651
+			goto st652
 		case 116:
-			goto st656
-		}
-		goto tr397
-	st611:
-		if p++; p == pe {
-			goto _test_eof611
-		}
-	st_case_611:
-		switch data[p] {
-		case 79:
-			goto st612
-		case 111:
-			goto st612
+			goto st657
 		}
-		goto tr397
+		goto tr398
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st613
-		case 114:
+		case 111:
 			goto st613
 		}
-		goto tr397
+		goto tr398
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st614
-		case 100:
+		case 114:
 			goto st614
 		}
-		goto tr397
+		goto tr398
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st615
+		case 100:
 			goto st615
 		}
-		goto tr397
+		goto tr398
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
-		switch data[p] {
-		case 82:
-			goto st616
-		case 114:
+		if data[p] == 45 {
 			goto st616
 		}
-		goto tr397
+		goto tr398
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st617
-		case 111:
+		case 114:
 			goto st617
 		}
-		goto tr397
+		goto tr398
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st618
-		case 117:
+		case 111:
 			goto st618
 		}
-		goto tr397
+		goto tr398
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st619
-		case 116:
+		case 117:
 			goto st619
 		}
-		goto tr397
+		goto tr398
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st620
-		case 101:
+		case 116:
 			goto st620
 		}
-		goto tr397
+		goto tr398
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 9:
-			goto tr829
-		case 32:
-			goto tr829
-		case 58:
-			goto tr830
+		case 69:
+			goto st621
+		case 101:
+			goto st621
 		}
-		goto tr397
+		goto tr398
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
-	st_case_621:
-		switch data[p] {
-		case 69:
-			goto st622
-		case 101:
-			goto st622
+	st_case_621:
+		switch data[p] {
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		}
-		goto tr397
+		goto tr398
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st623
-		case 114:
+		case 101:
 			goto st623
 		}
-		goto tr397
+		goto tr398
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 45:
-			goto st624
 		case 82:
-			goto st627
+			goto st624
 		case 114:
-			goto st627
+			goto st624
 		}
-		goto tr397
+		goto tr398
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
 		switch data[p] {
-		case 84:
-			goto st625
-		case 116:
+		case 45:
 			goto st625
+		case 82:
+			goto st628
+		case 114:
+			goto st628
 		}
-		goto tr397
+		goto tr398
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st626
-		case 111:
+		case 116:
 			goto st626
 		}
-		goto tr397
+		goto tr398
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 79:
+			goto st627
+		case 111:
+			goto st627
 		}
-		goto tr397
+		goto tr398
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 69:
-			goto st628
-		case 101:
-			goto st628
+		case 9:
+			goto tr811
+		case 32:
+			goto tr811
+		case 58:
+			goto tr812
 		}
-		goto tr397
+		goto tr398
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st629
-		case 100:
+		case 101:
 			goto st629
 		}
-		goto tr397
+		goto tr398
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st630
+		case 100:
 			goto st630
 		}
-		goto tr397
+		goto tr398
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
-		switch data[p] {
-		case 66:
-			goto st631
-		case 98:
+		if data[p] == 45 {
 			goto st631
 		}
-		goto tr397
+		goto tr398
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 89:
-			goto st353
-		case 121:
-			goto st353
+		case 66:
+			goto st632
+		case 98:
+			goto st632
 		}
-		goto tr397
+		goto tr398
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 79:
-			goto st633
-		case 111:
-			goto st633
+		case 89:
+			goto st354
+		case 121:
+			goto st354
 		}
-		goto tr397
+		goto tr398
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st634
-		case 116:
+		case 111:
 			goto st634
 		}
-		goto tr397
+		goto tr398
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st635
-		case 101:
+		case 116:
 			goto st635
 		}
-		goto tr397
+		goto tr398
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st636
+		case 101:
 			goto st636
 		}
-		goto tr397
+		goto tr398
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
-		switch data[p] {
-		case 80:
-			goto st637
-		case 112:
+		if data[p] == 45 {
 			goto st637
 		}
-		goto tr397
+		goto tr398
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 65:
+		case 80:
 			goto st638
-		case 97:
+		case 112:
 			goto st638
 		}
-		goto tr397
+		goto tr398
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st639
-		case 114:
+		case 97:
 			goto st639
 		}
-		goto tr397
+		goto tr398
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st640
-		case 116:
+		case 114:
 			goto st640
 		}
-		goto tr397
+		goto tr398
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st641
-		case 121:
+		case 116:
 			goto st641
 		}
-		goto tr397
+		goto tr398
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st642
+		case 121:
 			goto st642
 		}
-		goto tr397
+		goto tr398
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
-		switch data[p] {
-		case 73:
-			goto st643
-		case 105:
+		if data[p] == 45 {
 			goto st643
 		}
-		goto tr397
+		goto tr398
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st644
-		case 100:
+		case 105:
 			goto st644
 		}
-		goto tr397
+		goto tr398
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 9:
-			goto tr853
-		case 32:
-			goto tr853
-		case 58:
-			goto tr854
+		case 68:
+			goto st645
+		case 100:
+			goto st645
 		}
-		goto tr397
+		goto tr398
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
 		switch data[p] {
-		case 76:
-			goto st646
-		case 108:
-			goto st646
+		case 9:
+			goto tr854
+		case 32:
+			goto tr854
+		case 58:
+			goto tr855
 		}
-		goto tr397
+		goto tr398
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st647
-		case 121:
+		case 108:
 			goto st647
 		}
-		goto tr397
+		goto tr398
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st648
+		case 121:
 			goto st648
 		}
-		goto tr397
+		goto tr398
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
-		switch data[p] {
-		case 84:
-			goto st649
-		case 116:
+		if data[p] == 45 {
 			goto st649
 		}
-		goto tr397
+		goto tr398
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st650
-		case 111:
+		case 116:
 			goto st650
 		}
-		goto tr397
+		goto tr398
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 9:
-			goto tr860
-		case 32:
-			goto tr860
-		case 58:
-			goto tr861
+		case 79:
+			goto st651
+		case 111:
+			goto st651
 		}
-		goto tr397
+		goto tr398
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
 		switch data[p] {
-		case 85:
-			goto st652
-		case 117:
-			goto st652
+		case 9:
+			goto tr861
+		case 32:
+			goto tr861
+		case 58:
+			goto tr862
 		}
-		goto tr397
+		goto tr398
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st653
-		case 105:
+		case 117:
 			goto st653
 		}
-		goto tr397
+		goto tr398
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st654
-		case 114:
+		case 105:
 			goto st654
 		}
-		goto tr397
+		goto tr398
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st655
-		case 101:
+		case 114:
 			goto st655
 		}
-		goto tr397
+		goto tr398
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 9:
-			goto tr866
-		case 32:
-			goto tr866
-		case 58:
-			goto tr867
+		case 69:
+			goto st656
+		case 101:
+			goto st656
 		}
-		goto tr397
+		goto tr398
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 82:
-			goto st657
-		case 114:
-			goto st657
+		case 9:
+			goto tr867
+		case 32:
+			goto tr867
+		case 58:
+			goto tr868
 		}
-		goto tr397
+		goto tr398
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st658
-		case 121:
+		case 114:
 			goto st658
 		}
-		goto tr397
+		goto tr398
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st659
+		case 121:
 			goto st659
 		}
-		goto tr397
+		goto tr398
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
-		switch data[p] {
-		case 65:
-			goto st660
-		case 97:
+		if data[p] == 45 {
 			goto st660
 		}
-		goto tr397
+		goto tr398
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 70:
+		case 65:
 			goto st661
-		case 102:
+		case 97:
 			goto st661
 		}
-		goto tr397
+		goto tr398
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st662
-		case 116:
+		case 102:
 			goto st662
 		}
-		goto tr397
+		goto tr398
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st663
-		case 101:
+		case 116:
 			goto st663
 		}
-		goto tr397
+		goto tr398
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st664
-		case 114:
+		case 101:
 			goto st664
 		}
-		goto tr397
+		goto tr398
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 9:
-			goto tr876
-		case 32:
-			goto tr876
-		case 58:
-			goto tr877
+		case 82:
+			goto st665
+		case 114:
+			goto st665
 		}
-		goto tr397
+		goto tr398
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 85:
-			goto st666
-		case 117:
-			goto st666
+		case 9:
+			goto tr877
+		case 32:
+			goto tr877
+		case 58:
+			goto tr878
 		}
-		goto tr397
+		goto tr398
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st667
-		case 116:
+		case 117:
 			goto st667
 		}
-		goto tr397
+		goto tr398
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st668
-		case 101:
+		case 116:
 			goto st668
 		}
-		goto tr397
+		goto tr398
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
 		switch data[p] {
-		case 9:
-			goto tr881
-		case 32:
-			goto tr881
-		case 58:
-			goto tr882
+		case 69:
+			goto st669
+		case 101:
+			goto st669
 		}
-		goto tr397
+		goto tr398
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
@@ -15235,353 +15223,353 @@ tr727:
 	st_case_669:
 		switch data[p] {
 		case 9:
-			goto tr883
+			goto tr882
 		case 32:
-			goto tr883
+			goto tr882
 		case 58:
-			goto tr884
-		case 69:
-			goto st670
-		case 85:
-			goto st675
-		case 101:
-			goto st670
-		case 117:
-			goto st675
+			goto tr883
 		}
-		goto tr397
+		goto tr398
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr884
+		case 32:
+			goto tr884
+		case 58:
+			goto tr885
+		case 69:
 			goto st671
-		case 114:
+		case 85:
+			goto st676
+		case 101:
 			goto st671
+		case 117:
+			goto st676
 		}
-		goto tr397
+		goto tr398
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st672
-		case 118:
+		case 114:
 			goto st672
 		}
-		goto tr397
+		goto tr398
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st673
-		case 101:
+		case 118:
 			goto st673
 		}
-		goto tr397
+		goto tr398
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
 		}
 	st_case_673:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st674
-		case 114:
+		case 101:
 			goto st674
 		}
-		goto tr397
+		goto tr398
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
 		}
 	st_case_674:
 		switch data[p] {
-		case 9:
-			goto tr891
-		case 32:
-			goto tr891
-		case 58:
-			goto tr892
+		case 82:
+			goto st675
+		case 114:
+			goto st675
 		}
-		goto tr397
+		goto tr398
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 66:
-			goto st676
-		case 80:
-			goto st681
-		case 98:
-			goto st676
-		case 112:
-			goto st681
+		case 9:
+			goto tr892
+		case 32:
+			goto tr892
+		case 58:
+			goto tr893
 		}
-		goto tr397
+		goto tr398
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 74:
+		case 66:
 			goto st677
-		case 106:
+		case 80:
+			goto st682
+		case 98:
 			goto st677
+		case 112:
+			goto st682
 		}
-		goto tr397
+		goto tr398
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 69:
+		case 74:
 			goto st678
-		case 101:
+		case 106:
 			goto st678
 		}
-		goto tr397
+		goto tr398
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st679
-		case 99:
+		case 101:
 			goto st679
 		}
-		goto tr397
+		goto tr398
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st680
-		case 116:
+		case 99:
 			goto st680
 		}
-		goto tr397
+		goto tr398
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 9:
-			goto tr883
-		case 32:
-			goto tr883
-		case 58:
-			goto tr884
+		case 84:
+			goto st681
+		case 116:
+			goto st681
 		}
-		goto tr397
+		goto tr398
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 80:
-			goto st682
-		case 112:
-			goto st682
+		case 9:
+			goto tr884
+		case 32:
+			goto tr884
+		case 58:
+			goto tr885
 		}
-		goto tr397
+		goto tr398
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st683
-		case 111:
+		case 112:
 			goto st683
 		}
-		goto tr397
+		goto tr398
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st684
-		case 114:
+		case 111:
 			goto st684
 		}
-		goto tr397
+		goto tr398
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st685
-		case 116:
+		case 114:
 			goto st685
 		}
-		goto tr397
+		goto tr398
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st686
-		case 101:
+		case 116:
 			goto st686
 		}
-		goto tr397
+		goto tr398
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 68:
-			goto st494
-		case 100:
-			goto st494
+		case 69:
+			goto st687
+		case 101:
+			goto st687
 		}
-		goto tr397
+		goto tr398
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 9:
-			goto tr904
-		case 32:
-			goto tr904
-		case 58:
-			goto tr905
-		case 73:
-			goto st688
-		case 79:
-			goto st696
-		case 105:
-			goto st688
-		case 111:
-			goto st696
+		case 68:
+			goto st495
+		case 100:
+			goto st495
 		}
-		goto tr397
+		goto tr398
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 77:
+		case 9:
+			goto tr905
+		case 32:
+			goto tr905
+		case 58:
+			goto tr906
+		case 73:
 			goto st689
-		case 109:
+		case 79:
+			goto st697
+		case 105:
 			goto st689
+		case 111:
+			goto st697
 		}
-		goto tr397
+		goto tr398
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st690
-		case 101:
+		case 109:
 			goto st690
 		}
-		goto tr397
+		goto tr398
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st691
-		case 115:
+		case 101:
 			goto st691
 		}
-		goto tr397
+		goto tr398
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st692
-		case 116:
+		case 115:
 			goto st692
 		}
-		goto tr397
+		goto tr398
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st693
-		case 97:
+		case 116:
 			goto st693
 		}
-		goto tr397
+		goto tr398
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 77:
+		case 65:
 			goto st694
-		case 109:
+		case 97:
 			goto st694
 		}
-		goto tr397
+		goto tr398
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st695
-		case 112:
+		case 109:
 			goto st695
 		}
-		goto tr397
+		goto tr398
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 9:
-			goto tr915
-		case 32:
-			goto tr915
-		case 58:
-			goto tr916
+		case 80:
+			goto st696
+		case 112:
+			goto st696
 		}
-		goto tr397
+		goto tr398
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
@@ -15589,13 +15577,13 @@ tr727:
 	st_case_696:
 		switch data[p] {
 		case 9:
-			goto tr904
+			goto tr916
 		case 32:
-			goto tr904
+			goto tr916
 		case 58:
-			goto tr905
+			goto tr917
 		}
-		goto tr397
+		goto tr398
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
@@ -15603,57 +15591,59 @@ tr727:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr483
+			goto tr905
 		case 32:
-			goto tr483
+			goto tr905
 		case 58:
-			goto tr484
-		case 78:
-			goto st698
-		case 83:
-			goto st708
-		case 110:
-			goto st698
-		case 115:
-			goto st708
+			goto tr906
 		}
-		goto tr397
+		goto tr398
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
+		case 9:
+			goto tr484
+		case 32:
+			goto tr484
+		case 58:
+			goto tr485
+		case 78:
+			goto st699
 		case 83:
+			goto st709
+		case 110:
 			goto st699
 		case 115:
-			goto st699
+			goto st709
 		}
-		goto tr397
+		goto tr398
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 85:
+		case 83:
 			goto st700
-		case 117:
+		case 115:
 			goto st700
 		}
-		goto tr397
+		goto tr398
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 80:
+		case 85:
 			goto st701
-		case 112:
+		case 117:
 			goto st701
 		}
-		goto tr397
+		goto tr398
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
@@ -15665,188 +15655,186 @@ tr727:
 		case 112:
 			goto st702
 		}
-		goto tr397
+		goto tr398
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st703
-		case 111:
+		case 112:
 			goto st703
 		}
-		goto tr397
+		goto tr398
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st704
-		case 114:
+		case 111:
 			goto st704
 		}
-		goto tr397
+		goto tr398
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st705
-		case 116:
+		case 114:
 			goto st705
 		}
-		goto tr397
+		goto tr398
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st706
-		case 101:
+		case 116:
 			goto st706
 		}
-		goto tr397
+		goto tr398
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st707
-		case 100:
+		case 101:
 			goto st707
 		}
-		goto tr397
+		goto tr398
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
 		}
 	st_case_707:
-		switch data[p] {
-		case 9:
-			goto tr928
-		case 32:
-			goto tr928
-		case 58:
-			goto tr929
+		switch data[p] {
+		case 68:
+			goto st708
+		case 100:
+			goto st708
 		}
-		goto tr397
+		goto tr398
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
-		case 69:
-			goto st709
-		case 101:
-			goto st709
+		case 9:
+			goto tr929
+		case 32:
+			goto tr929
+		case 58:
+			goto tr930
 		}
-		goto tr397
+		goto tr398
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st710
-		case 114:
+		case 101:
 			goto st710
 		}
-		goto tr397
+		goto tr398
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st711
+		case 114:
 			goto st711
 		}
-		goto tr397
+		goto tr398
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
-		switch data[p] {
-		case 65:
-			goto st712
-		case 97:
+		if data[p] == 45 {
 			goto st712
 		}
-		goto tr397
+		goto tr398
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st713
-		case 103:
+		case 97:
 			goto st713
 		}
-		goto tr397
+		goto tr398
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st714
-		case 101:
+		case 103:
 			goto st714
 		}
-		goto tr397
+		goto tr398
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st715
-		case 110:
+		case 101:
 			goto st715
 		}
-		goto tr397
+		goto tr398
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st716
-		case 116:
+		case 110:
 			goto st716
 		}
-		goto tr397
+		goto tr398
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 9:
-			goto tr938
-		case 32:
-			goto tr938
-		case 58:
-			goto tr939
+		case 84:
+			goto st717
+		case 116:
+			goto st717
 		}
-		goto tr397
+		goto tr398
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -15854,17 +15842,13 @@ tr727:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto st718
+			goto tr939
 		case 32:
-			goto st718
+			goto tr939
 		case 58:
-			goto st719
-		case 73:
-			goto st723
-		case 105:
-			goto st723
+			goto tr940
 		}
-		goto tr397
+		goto tr398
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -15872,18 +15856,36 @@ tr727:
 	st_case_718:
 		switch data[p] {
 		case 9:
-			goto st718
+			goto st719
 		case 32:
-			goto st718
-		case 58:
 			goto st719
+		case 58:
+			goto st720
+		case 73:
+			goto st724
+		case 105:
+			goto st724
 		}
-		goto st0
+		goto tr398
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
+		switch data[p] {
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
+			goto st720
+		}
+		goto st0
+	st720:
+		if p++; p == pe {
+			goto _test_eof720
+		}
+	st_case_720:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -15893,30 +15895,21 @@ tr727:
 		}
 		switch _widec {
 		case 9:
-			goto st719
+			goto st720
 		case 32:
-			goto st719
+			goto st720
 		case 269:
-			goto tr943
+			goto tr944
 		case 525:
-			goto st720
+			goto st721
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr943
+				goto tr944
 			}
 		default:
-			goto tr943
-		}
-		goto st0
-	st720:
-		if p++; p == pe {
-			goto _test_eof720
-		}
-	st_case_720:
-		if data[p] == 10 {
-			goto st721
+			goto tr944
 		}
 		goto st0
 	st721:
@@ -15924,10 +15917,7 @@ tr727:
 			goto _test_eof721
 		}
 	st_case_721:
-		switch data[p] {
-		case 9:
-			goto st722
-		case 32:
+		if data[p] == 10 {
 			goto st722
 		}
 		goto st0
@@ -15938,315 +15928,318 @@ tr727:
 	st_case_722:
 		switch data[p] {
 		case 9:
-			goto st722
+			goto st723
 		case 32:
-			goto st722
+			goto st723
 		}
-		goto tr943
+		goto st0
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 65:
-			goto st724
-		case 97:
-			goto st724
+		case 9:
+			goto st723
+		case 32:
+			goto st723
 		}
-		goto tr397
+		goto tr944
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 9:
-			goto st718
-		case 32:
-			goto st718
-		case 58:
-			goto st719
+		case 65:
+			goto st725
+		case 97:
+			goto st725
 		}
-		goto tr397
+		goto tr398
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 65:
-			goto st726
-		case 87:
-			goto st732
-		case 97:
-			goto st726
-		case 119:
-			goto st732
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
+			goto st720
 		}
-		goto tr397
+		goto tr398
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st727
-		case 114:
+		case 87:
+			goto st733
+		case 97:
 			goto st727
+		case 119:
+			goto st733
 		}
-		goto tr397
+		goto tr398
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st728
-		case 110:
+		case 114:
 			goto st728
 		}
-		goto tr397
+		goto tr398
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st729
-		case 105:
+		case 110:
 			goto st729
 		}
-		goto tr397
+		goto tr398
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st730
-		case 110:
+		case 105:
 			goto st730
 		}
-		goto tr397
+		goto tr398
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st731
-		case 103:
+		case 110:
 			goto st731
 		}
-		goto tr397
+		goto tr398
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 9:
-			goto tr955
-		case 32:
-			goto tr955
-		case 58:
-			goto tr956
+		case 71:
+			goto st732
+		case 103:
+			goto st732
 		}
-		goto tr397
+		goto tr398
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 87:
-			goto st733
-		case 119:
-			goto st733
+		case 9:
+			goto tr956
+		case 32:
+			goto tr956
+		case 58:
+			goto tr957
 		}
-		goto tr397
+		goto tr398
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
-		if data[p] == 45 {
+		switch data[p] {
+		case 87:
+			goto st734
+		case 119:
 			goto st734
 		}
-		goto tr397
+		goto tr398
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
-		switch data[p] {
-		case 65:
-			goto st735
-		case 97:
+		if data[p] == 45 {
 			goto st735
 		}
-		goto tr397
+		goto tr398
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st736
-		case 117:
+		case 97:
 			goto st736
 		}
-		goto tr397
+		goto tr398
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st737
-		case 116:
+		case 117:
 			goto st737
 		}
-		goto tr397
+		goto tr398
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st738
-		case 104:
+		case 116:
 			goto st738
 		}
-		goto tr397
+		goto tr398
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st739
-		case 101:
+		case 104:
 			goto st739
 		}
-		goto tr397
+		goto tr398
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st740
-		case 110:
+		case 101:
 			goto st740
 		}
-		goto tr397
+		goto tr398
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st741
-		case 116:
+		case 110:
 			goto st741
 		}
-		goto tr397
+		goto tr398
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st742
-		case 105:
+		case 116:
 			goto st742
 		}
-		goto tr397
+		goto tr398
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st743
-		case 99:
+		case 105:
 			goto st743
 		}
-		goto tr397
+		goto tr398
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st744
-		case 97:
+		case 99:
 			goto st744
 		}
-		goto tr397
+		goto tr398
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st745
-		case 116:
+		case 97:
 			goto st745
 		}
-		goto tr397
+		goto tr398
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st746
-		case 101:
+		case 116:
 			goto st746
 		}
-		goto tr397
+		goto tr398
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 9:
-			goto tr971
-		case 32:
-			goto tr971
-		case 58:
-			goto tr972
+		case 69:
+			goto st747
+		case 101:
+			goto st747
 		}
-		goto tr397
+		goto tr398
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto tr972
+		case 32:
+			goto tr972
+		case 58:
 			goto tr973
 		}
-		goto st0
+		goto tr398
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -16528,10 +16521,10 @@ tr727:
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
@@ -17009,14 +17002,14 @@ tr727:
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 271, 272, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 360, 361, 362, 363, 364, 365, 375, 376, 377, 378, 379, 380, 381, 382, 383, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 431, 432, 433, 434, 435, 436, 437, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746:
+		case 272, 273, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 361, 362, 363, 364, 365, 366, 376, 377, 378, 379, 380, 381, 382, 383, 384, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 432, 433, 434, 435, 436, 437, 438, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747:
 //line sip.rl:177
 
 	p = ( mark) - 1
 
 	{goto st263 }
 
-//line msg_parse.go:17011
+//line msg_parse.go:17004
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 847530a..a92f36b 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -547,7 +547,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From 8b07c9ba28d70f924adf953323a3f6efea1371ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 15/50] fix: refuse session descriptions with a blank address

---
 sdp/sdp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..9a30be5 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -484,6 +484,9 @@ func parseConnLine(line string) (addr string, err error) {
 	if n := strings.Index(addr, "/"); n >= 0 {
 		return "", errors.New("multicast address in c= line D:")
 	}
+	if strings.TrimSpace(addr) == "" {
+		return "", errors.New("blank address in c= line")
+	}
 	return addr, nil
 }
 
@@ -503,5 +506,8 @@ func parseOriginLine(origin *Origin, line string) error {
 	if n := strings.Index(origin.Addr, "/"); n >= 0 {
 		return errors.New("multicast address in o= line D:")
 	}
+	if strings.TrimSpace(origin.Addr) == "" {
+		return errors.New("blank address in o= line")
+	}
 	return nil
 }
-- 
2.43.0


From ac28ad4a844d156f22498715dee6c1a41011d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 16/50] fix: keep codecs apart when audio and video use the
 same payload type

The video stream got the name and settings of the audio codec.
---
 sdp/sdp.go | 69 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index 9a30be5..8815439 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -134,10 +134,8 @@ func Parse(s string) (sdp *SDP, err error) {
 	// We abstract the structure of the media lines so we need a place to store
 	// them before assembling the audio/video data structures.
 	var audioinfo, videoinfo string
-	rtpmaps := make([]string, len(lines))
-	rtpmapcnt := 0
-	fmtps := make([]string, len(lines))
-	fmtpcnt := 0
+	var rtpmaps, fmtps []codecLine
+	var media string
 	sdp.Attrs = make([][2]string, 0, len(lines))
 
 	// Extract information from SDP.
@@ -151,6 +149,7 @@ func Parse(s string) (sdp *SDP, err error) {
 			continue
 		case line[0] == 'm': // media line
 			line = line[2:]
+			media = strings.SplitN(line, " ", 2)[0]
 			if strings.HasPrefix(line, "audio ") {
 				audioinfo = line[6:]
 			} else if strings.HasPrefix(line, "video ") {
@@ -182,11 +181,9 @@ func Parse(s string) (sdp *SDP, err error) {
 			line = line[2:]
 			switch {
 			case strings.HasPrefix(line, "rtpmap:"):
-				rtpmaps[rtpmapcnt] = line[7:]
-				rtpmapcnt++
+				rtpmaps = append(rtpmaps, codecLine{media, line[7:]})
 			case strings.HasPrefix(line, "fmtp:"):
-				fmtps[fmtpcnt] = line[5:]
-				fmtpcnt++
+				fmtps = append(fmtps, codecLine{media, line[5:]})
 			case strings.HasPrefix(line, "ptime:"):
 				ptimeS := line[6:]
 				if ptime, err := strconv.Atoi(ptimeS); err == nil && ptime > 0 {
@@ -229,23 +226,27 @@ func Parse(s string) (sdp *SDP, err error) {
 			}
 		}
 	}
-	rtpmaps = rtpmaps[0:rtpmapcnt]
-	fmtps = fmtps[0:fmtpcnt]
 
 	if !okConn || !okOrigin {
 		return nil, errors.New("sdp missing mandatory information")
 	}
 
 	// Assemble audio/video information.
-	var pts []uint8
+	var apts, vpts []uint8
 
 	if audioinfo != "" {
 		sdp.Audio = new(Media)
-		sdp.Audio.Port, sdp.Audio.Proto, pts, err = parseMediaInfo(audioinfo)
+		sdp.Audio.Port, sdp.Audio.Proto, apts, err = parseMediaInfo(audioinfo)
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Audio, pts, rtpmaps, fmtps)
+	} else {
+		sdp.Video = nil
+	}
+
+	if videoinfo != "" {
+		sdp.Video = new(Media)
+		sdp.Video.Port, sdp.Video.Proto, vpts, err = parseMediaInfo(videoinfo)
 		if err != nil {
 			return nil, err
 		}
@@ -253,18 +254,20 @@ func Parse(s string) (sdp *SDP, err error) {
 		sdp.Video = nil
 	}
 
-	if videoinfo != "" {
-		sdp.Video = new(Media)
-		sdp.Video.Port, sdp.Video.Proto, pts, err = parseMediaInfo(videoinfo)
+	if sdp.Audio != nil {
+		err = populateCodecs(sdp.Audio, apts,
+			codecInfo(rtpmaps, "audio", vpts), codecInfo(fmtps, "audio", vpts))
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Video, pts, rtpmaps, fmtps)
+	}
+
+	if sdp.Video != nil {
+		err = populateCodecs(sdp.Video, vpts,
+			codecInfo(rtpmaps, "video", apts), codecInfo(fmtps, "video", apts))
 		if err != nil {
 			return nil, err
 		}
-	} else {
-		sdp.Video = nil
 	}
 
 	if sdp.Audio == nil && sdp.Video == nil {
@@ -368,6 +371,34 @@ func (sdp *SDP) Append(b *bytes.Buffer) {
 	}
 }
 
+// codecLine is the info of an a=rtpmap or a=fmtp line and the type of the m=
+// line it was written under, which is blank at the session level.
+type codecLine struct {
+	media string
+	info  string
+}
+
+// Returns the info that applies to one type of media. What was written under
+// its m= line takes precedence. What was written elsewhere applies as well,
+// unless it's about a payload type which the other media lists itself.
+func codecInfo(lines []codecLine, media string, others []uint8) []string {
+	var own, rest []string
+	for _, line := range lines {
+		if line.media == media {
+			own = append(own, line.info)
+			continue
+		}
+		if line.media == "audio" || line.media == "video" {
+			pt, err := strconv.ParseUint(strings.SplitN(line.info, " ", 2)[0], 10, 8)
+			if err == nil && bytes.IndexByte(others, byte(pt)) != -1 {
+				continue
+			}
+		}
+		rest = append(rest, line.info)
+	}
+	return append(own, rest...)
+}
+
 // Here we take the list of payload types from the m= line (e.g. 9 18 0 101)
 // and turn them into a list of codecs.
 //
-- 
2.43.0


From 83d7c6e2158d1094a5cb781aa469df9bdbecaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 17/50] fix: mix frames that are not aligned to 16 bytes

The aligned loads crash on frames within a larger buffer or structure.
---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..5aa1f00 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0
+	MOVOU	0(AX), X1
+	PADDSW  X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From 269b1ef99cfb51a187c5683a14ae4d6c3cb1e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 18/50] fix: don't hang on noise seeds near the integer limits

---
 dsp/awgn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/awgn.go b/dsp/awgn.go
index e710204..7ddda50 100644
--- a/dsp/awgn.go
+++ b/dsp/awgn.go
@@ -62,6 +62,7 @@ func NewAWGN_DBM0(idum int64, level float64) (s *AWGN) {
 
 func NewAWGN_DBOV(idum int64, level float64) (s *AWGN) {
 	s = new(AWGN)
+	idum %= m1
 	if idum < 0.0 {
 		idum = -idum
 	}
-- 
2.43.0


From 126983f8887eccf260fbca2daa5f4ecb8c56b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 19/50] fix: don't mark audio after a digit failed to send

---
 rtp/session.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..fcb19ad 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -137,12 +137,13 @@ func (rs *Session) SendDTMF(digit byte) error {
 	for {
 		event[2] = byte(dur >> 8)
 		event[3] = byte(dur & 0xff)
-		_, err := rs.Sock.WriteTo(append(rs.Header.Write(rs.obuf), event[:]...), rs.Peer)
+		buf := append(rs.Header.Write(rs.obuf), event[:]...)
+		rs.Header.Mark = false
+		_, err := rs.Sock.WriteTo(buf, rs.Peer)
 		if err != nil {
 			return err
 		}
 		rs.Header.Seq++
-		rs.Header.Mark = false
 		dur += dtmfInterval
 		if dur >= dtmfDuration {
 			break
-- 
2.43.0


From 6b3f0a40159c02976d25492b7789923f24df854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 20/50] fix: give each digit its own timestamp

Receivers take events with the same timestamp for one press, so the
second of two digits sent in a row was lost.
---
 rtp/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/session.go b/rtp/session.go
index fcb19ad..2e7bca8 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -160,6 +160,7 @@ func (rs *Session) SendDTMF(digit byte) error {
 		}
 		rs.Header.Seq++
 	}
+	rs.Header.TS += dtmfDuration
 	return nil
 }
 
-- 
2.43.0


From 2c98f8e1f0405f89de5cf8d3cdb2412752344433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 21/50] fix: listen on an automatic port of an IPv6 address

---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index 2e7bca8..6b42b0f 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -222,7 +222,7 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 }
 
 func Listen(host string) (sock net.PacketConn, err error) {
-	if strings.Contains(host, ":") {
+	if strings.Contains(host, ":") && net.ParseIP(host) == nil {
 		return net.ListenPacket("udp", host)
 	}
 	for i := 0; i < rtpBindMaxAttempts; i++ {
-- 
2.43.0


From 923c437d1b3f7bf0e00e3127e60d051e31e08ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 22/50] fix: recognise ICMP refusals and move on to the next
 server

---
 dialog/dialog.go | 2 +-
 util/util.go     | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..abd74fc 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 9f34b973c738c7df76589227de8dc8982a9094f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 23/50] fix: finish closing a socket instead of waiting for
 each other forever

---
 dialog/dialog.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index abd74fc..dcc1956 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -502,8 +502,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -511,7 +510,23 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// drain waits for a receiver whose socket was closed to finish. It might still
+// have messages and an error to publish.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for msgs != nil || errs != nil {
+		select {
+		case _, ok := <-msgs:
+			if !ok {
+				msgs = nil
+			}
+		case _, ok := <-errs:
+			if !ok {
+				errs = nil
+			}
+		}
 	}
 }
-- 
2.43.0


From 3c2a24c2c1eaf3ebbebe47130701253ce6627202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 24/50] fix: keep received messages from changing with the next
 packet

---
 dialog/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..13a211c 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,8 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := make([]byte, amt) // The message keeps slices of its packet.
+		copy(packet, buf)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 8eb5855b6995ec12f709006a75ed43aca966b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 25/50] fix: don't crash on messages without Via

---
 dialog/receiver.go | 4 ++--
 dialog/route.go    | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 13a211c..3cd37ea 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -58,7 +58,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 }
 
 func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
-	if msg.IsResponse() {
+	if msg.IsResponse() || msg.Via == nil {
 		return
 	}
 	if int(msg.Via.Port) != addr.Port {
@@ -92,7 +92,7 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 }
 
 func addTimestamp(msg *sip.Msg, ts time.Time) {
-	if *timestampTagging {
+	if *timestampTagging && msg.Via != nil {
 		msg.Via.Param = &sip.Param{
 			Name:  "usi",
 			Value: strconv.FormatInt(ts.UnixNano()/int64(time.Microsecond), 10),
diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..f927390 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -82,6 +82,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 			msg.Via = msg.Via.Next
 		}
 
+		if msg.Via == nil {
+			return "", 0, errors.New("Can't route response without Via")
+		}
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
 			host = received.Value
-- 
2.43.0


From 7166065c2ce9db89ef3eb9d221bfa8f95c1adb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 26/50] fix: answer where a request came from, not where its
 Via claims

---
 dialog/receiver.go | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 3cd37ea..5afc84d 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -61,33 +61,17 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 	if msg.IsResponse() || msg.Via == nil {
 		return
 	}
-	if int(msg.Via.Port) != addr.Port {
-
-		rport := msg.Via.Param.Get("rport")
-		port := strconv.Itoa(addr.Port)
-
-		if rport == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "rport",
-				Value: port,
-				Next:  msg.Via.Param,
-			}
-		} else {
+	// The sender might have put its own values there, which we can't trust.
+	setReceived(msg.Via, "rport", strconv.Itoa(addr.Port), int(msg.Via.Port) != addr.Port)
+	setReceived(msg.Via, "received", addr.IP.String(), msg.Via.Host != addr.IP.String())
+}
 
-			// implied rport is 5060, but some NAT will use another port,we use real port instead
-			if len(rport.Value) == 0 {
-				rport.Value = port
-			}
-		}
-	}
-	if msg.Via.Host != addr.IP.String() {
-		if msg.Via.Param.Get("received") == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "received",
-				Value: addr.IP.String(),
-				Next:  msg.Via.Param,
-			}
-		}
+// setReceived overwrites a Via parameter, or adds it if needed.
+func setReceived(via *sip.Via, name, value string, needed bool) {
+	if param := via.Param.Get(name); param != nil {
+		param.Value = value
+	} else if needed {
+		via.Param = &sip.Param{Name: name, Value: value, Next: via.Param}
 	}
 }
 
-- 
2.43.0


From a5e7495112511cc9872afc19d3534239a551993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 27/50] fix: refuse return ports that don't fit instead of
 wrapping them

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index f927390..9b8b7b7 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -95,7 +95,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From 30d5a2de5fa8f4185343a602ea9f5c9cec69444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 28/50] fix: send to port 5060 when an address has no port

---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..008f060 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,7 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
+	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(or5060(port))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d2bf93ea15fb62229224d7b6f2fd8e6e6458c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 29/50] fix: don't send messages whose hop limit is used up

---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 008f060..81066ad 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -86,6 +87,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
+	if msg.MaxForwards == 1 {
+		return errors.New("Local froot loop detected")
+	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
 	}
-- 
2.43.0


From be24cefa2f6eb969cd887ae2a72da3f72328ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 30/50] fix: give each request a Via and branch of its own

---
 dialog/route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 9b8b7b7..7941828 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,10 +32,10 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
-			msg.Contact = contact
+			msg.Contact = contact.Copy()
 		}
 		if msg.To == nil {
 			msg.To = &sip.Addr{Uri: msg.Request}
-- 
2.43.0


From c8769a5cb414ae132219be4064e4b4b47418aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 31/50] fix: acknowledge and report failure responses that have
 no Contact

---
 dialog/dialog.go   | 6 +++---
 dialog/messages.go | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index dcc1956..6dd3d3b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,11 +303,11 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if !dls.send(NewAck(msg, dls.request)) {
 			return false
 		}
-		if !dls.send(NewAck(msg, dls.request)) {
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 	}
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..d4aad21 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request := invite.Request
+	if msg.Contact != nil {
+		request = msg.Contact.Uri
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
-- 
2.43.0


From 6caa91f4695ef5d0e9937b4b695ea3d57d53d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 32/50] fix: only follow redirects of the INVITE that name an
 address

---
 dialog/dialog.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 6dd3d3b..7e8a538 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -341,9 +341,14 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		dls.invite.Request = msg.Contact.Uri
-		dls.invite.Route = nil
-		return dls.sendRequest(dls.invite)
+		if dls.request == dls.invite && msg.Contact != nil {
+			dls.invite.Request = msg.Contact.Uri
+			dls.invite.Route = nil
+			return dls.sendRequest(dls.invite)
+		} else {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 	default:
 		if msg.Status > sip.StatusOK {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
-- 
2.43.0


From d0d4c45293db4d5b161cda66716db22314ae57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 33/50] fix: try the next server when one says the service is
 unavailable

---
 dialog/dialog.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e8a538..fdc4f72 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
@@ -476,6 +478,7 @@ func (dls *dialogState) resendResponse() bool {
 func (dls *dialogState) sendHangup() bool {
 	switch dls.state {
 	case Proceeding, Ringing:
+		dls.routes = nil // Don't try other servers anymore.
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
-- 
2.43.0


From ad9a9cebfb4c718506b7b742448d93ca93bcf1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 34/50] fix: don't crash on session descriptions without audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fdc4f72..743f0b9 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -400,7 +400,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From e14590c7e0a3818462291b85ea0a90805c318bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 35/50] fix: never answer responses and ACKs

---
 dialog/dialog.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 743f0b9..fcdd398 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -279,17 +279,17 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 }
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
+	if msg.CallID != dls.request.CallID {
+		log.Printf("Received message doesn't match dialog\r\n")
+		return dls.refuse(msg, sip.StatusCallTransactionDoesNotExist)
+	}
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if !dls.refuse(msg, sip.StatusVersionNotSupported) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
 		return false
 	}
-	if msg.CallID != dls.request.CallID {
-		log.Printf("Received message doesn't match dialog\r\n")
-		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
-	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
 	} else {
@@ -297,6 +297,14 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 }
 
+// refuse answers a request with an error. Responses and ACKs are never answered.
+func (dls *dialogState) refuse(msg *sip.Msg, status int) bool {
+	if msg.IsResponse() || msg.Method == sip.MethodAck {
+		return true
+	}
+	return dls.send(NewResponse(msg, status))
+}
+
 func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	if !ResponseMatch(dls.request, msg) {
 		log.Printf("Received response doesn't match transaction\r\n")
@@ -361,6 +369,14 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
+	if msg.Method == sip.MethodAck {
+		// Re-INVITE response has been ACK'd.
+		if dls.response != nil && dls.response.CSeq == msg.CSeq {
+			dls.response = nil
+			dls.responseTimer = nil
+		}
+		return true
+	}
 	if msg.MaxForwards <= 0 {
 		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
@@ -390,10 +406,6 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.remote = msg
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
-	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
-		return true
 	default:
 		return dls.send(NewResponse(msg, sip.StatusMethodNotAllowed))
 	}
-- 
2.43.0


From 206cea984d1871c63ded810f69f1aad656953102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 36/50] fix: keep the peer's identity and route when it
 re-negotiates

---
 dialog/dialog.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fcdd398..0d0f96b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -335,9 +335,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
 			if dls.remote == nil {
+				dls.remote = msg
 				dls.transition(Answered)
 			}
-			dls.remote = msg
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
 			return false
@@ -403,7 +403,12 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			// Only the target changes. The route set, and who is who, doesn't.
+			remote := *dls.remote
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	default:
-- 
2.43.0


From 5755d66246f550543b5632b8e44cc9c71d058da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 37/50] fix: don't go back when provisional responses come late

---
 dialog/dialog.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0d0f96b..1b259c8 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -319,6 +319,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
+	if dls.state == Answered && dls.request == dls.invite && msg.Status != sip.StatusOK {
+		log.Printf("Ignoring response to INVITE that's already been answered\r\n")
+		return true
+	}
 	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
 		dls.routes = nil
 	}
@@ -328,7 +332,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	}
 	switch msg.Status {
 	case sip.StatusTrying:
-		dls.transition(Proceeding)
+		if dls.state < Ringing {
+			dls.transition(Proceeding)
+		}
 	case sip.StatusRinging, sip.StatusSessionProgress:
 		dls.transition(Ringing)
 	case sip.StatusOK:
-- 
2.43.0


From ea4064133eedd955a7da18ddc600b367c3a6e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 38/50] fix: don't report the old media address when the answer
 is repeated

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1b259c8..cbb6780 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -319,7 +319,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	if dls.state == Answered && dls.request == dls.invite && msg.Status != sip.StatusOK {
+	if dls.state == Answered && dls.request == dls.invite {
 		log.Printf("Ignoring response to INVITE that's already been answered\r\n")
 		return true
 	}
-- 
2.43.0


From be204648b834054ce4261a2211f97912d2a203d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 39/50] fix: make From a single address when derived from
 several contacts

---
 dialog/route.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/route.go b/dialog/route.go
index 7941828..68f164a 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -42,6 +42,7 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 		}
 		if msg.From == nil {
 			msg.From = msg.Contact.Copy()
+			msg.From.Next = nil
 			msg.From.Uri.Param = nil
 		}
 		if msg.CallID == "" {
-- 
2.43.0


From 8b0a73b6542e846d63c2cfd2b5420ae33bb20194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 40/50] fix: give the right local address after a call moves to
 another server

A call that fails over or is redirected to a server reached through
another network interface kept the address of its first attempt in Via,
Contact and the session description.
---
 dialog/dialog.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index cbb6780..1ce6a50 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -77,6 +77,10 @@ type dialogState struct {
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
 	b               bytes.Buffer     // Outbound message buffer.
+	ourVia          *sip.Via         // Via we made, with the local address.
+	ourContact      *sip.Addr        // Contact we made, with the local address.
+	ourAddr         bool             // We put the local address in the SDP.
+	ourOrigin       bool             // We put the local address in its origin.
 }
 
 // NewDialog creates a phone call.
@@ -231,8 +235,13 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
 
+	// The local address we fill in depends on the server we're contacting.
 	if msg.Via == nil {
-		msg.Via = &sip.Via{Host: lhost}
+		msg.Via = &sip.Via{}
+		dls.ourVia = msg.Via
+	}
+	if msg.Via == dls.ourVia {
+		msg.Via.Host = lhost
 	}
 	msg.Via.Port = lport
 	branch := msg.Via.Param.Get("branch")
@@ -247,7 +256,11 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	}
 
 	if msg.Contact == nil {
-		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: lhost}}
+		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip"}}
+		dls.ourContact = msg.Contact
+	}
+	if msg.Contact == dls.ourContact {
+		msg.Contact.Uri.Host = lhost
 	}
 	if dls.csock != nil {
 		msg.Contact.Uri.Port = uint16(dls.csock.LocalAddr().(*net.UDPAddr).Port)
@@ -264,11 +277,13 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 	if msg.Method == sip.MethodInvite {
 		if ms, ok := msg.Payload.(*sdp.SDP); ok {
-			if ms.Addr == "" {
+			if ms.Addr == "" || dls.ourAddr {
 				ms.Addr = lhost
+				dls.ourAddr = true
 			}
-			if ms.Origin.Addr == "" {
+			if ms.Origin.Addr == "" || dls.ourOrigin {
 				ms.Origin.Addr = lhost
+				dls.ourOrigin = true
 			}
 			if ms.Origin.ID == "" {
 				ms.Origin.ID = util.GenerateOriginID()
-- 
2.43.0


From b6b16c571e9f70df0dab975e478f491aefb21d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 41/50] fix: don't render an empty Content-Type header

---
 sip/msg.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index bb75a1a..3b4984d 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -455,9 +455,11 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	msg.XHeader.Append(b)
 
 	if msg.Payload != nil {
-		b.WriteString("Content-Type: ")
-		b.WriteString(msg.Payload.ContentType())
-		b.WriteString("\r\n")
+		if ctype := msg.Payload.ContentType(); ctype != "" {
+			b.WriteString("Content-Type: ")
+			b.WriteString(ctype)
+			b.WriteString("\r\n")
+		}
 		payload := msg.Payload.Data()
 		b.WriteString("Content-Length: ")
 		b.WriteString(strconv.Itoa(len(payload)))
-- 
2.43.0


From 535a03356d2c40a27302ab3c22fead18efc2ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:18 +0000
Subject: [PATCH 42/50] fix: recognize session descriptions whatever the case
 of their media type

---
 sip/msg_parse.go | 15 ++++++++-------
 sip/msg_parse.rl |  3 ++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 88bd067..e968ae8 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -22,13 +22,14 @@ import (
 	"fmt"
 	"github.com/jart/gosip/sdp"
 	"math"
+	"strings"
 )
 
 
-//line msg_parse.rl:26
-
 //line msg_parse.rl:27
 
+//line msg_parse.rl:28
+
 //line msg_parse.go:29
 const msg_start int = 1
 const msg_first_final int = 748
@@ -47,7 +48,7 @@ const msg_en_header int = 270
 const msg_en_main int = 1
 
 
-//line msg_parse.rl:28
+//line msg_parse.rl:29
 
 // ParseMsg turns a SIP message byte slice into a data structure.
 func ParseMsg(data []byte) (msg *Msg, err error) {
@@ -74,14 +75,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	var addr *Addr
 
 	
-//line msg_parse.rl:54
+//line msg_parse.rl:55
 	
 //line msg_parse.go:73
 	{
 	cs = msg_start
 	}
 
-//line msg_parse.rl:55
+//line msg_parse.rl:56
 	
 //line msg_parse.go:78
 	{
@@ -17016,7 +17017,7 @@ tr728:
 	_out: {}
 	}
 
-//line msg_parse.rl:56
+//line msg_parse.rl:57
 
 	if cs < msg_first_final {
 		if p == pe {
@@ -17030,7 +17031,7 @@ tr728:
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
 		}
-		if ctype == sdp.ContentType {
+		if strings.EqualFold(ctype, sdp.ContentType) {
 			ms, err := sdp.Parse(string(data[p:len(data)]))
 			if err != nil {
 				return nil, err
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 0344eb6..9b48d91 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"github.com/jart/gosip/sdp"
 	"math"
+	"strings"
 )
 
 %% machine msg;
@@ -66,7 +67,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
 		}
-		if ctype == sdp.ContentType {
+		if strings.EqualFold(ctype, sdp.ContentType) {
 			ms, err := sdp.Parse(string(data[p:len(data)]))
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 544746cb3f35a0fdffaed0cc511211ffb18bfd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 43/50] fix: don't follow a redirect after hanging up

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1ce6a50..568d0d3 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -81,6 +81,7 @@ type dialogState struct {
 	ourContact      *sip.Addr        // Contact we made, with the local address.
 	ourAddr         bool             // We put the local address in the SDP.
 	ourOrigin       bool             // We put the local address in its origin.
+	cancelled       bool             // We hung up before the call was answered.
 }
 
 // NewDialog creates a phone call.
@@ -372,7 +373,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if dls.request == dls.invite && msg.Contact != nil {
+		if dls.request == dls.invite && msg.Contact != nil && !dls.cancelled {
 			dls.invite.Request = msg.Contact.Uri
 			dls.invite.Route = nil
 			return dls.sendRequest(dls.invite)
@@ -517,6 +518,7 @@ func (dls *dialogState) sendHangup() bool {
 	switch dls.state {
 	case Proceeding, Ringing:
 		dls.routes = nil // Don't try other servers anymore.
+		dls.cancelled = true
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
-- 
2.43.0


From de71ba2696179bcff746eab874b21647effd2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:27 +0000
Subject: [PATCH 44/50] fix: correct the reason phrase of 484 responses

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From a1d4bd9a9cc109c604046498d65f9146d74b63b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 45/50] fix: restore the terminal when a fone call fails

---
 fone/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fone/main.go b/fone/main.go
index 4def14e..9d241be 100644
--- a/fone/main.go
+++ b/fone/main.go
@@ -222,12 +222,14 @@ func main() {
 				if answered {
 					return
 				} else {
+					C.endwin()
 					os.Exit(1)
 				}
 			}
 
 		// Errors and Interruptions
 		case err := <-dl.OnErr:
+			C.endwin()
 			log.Fatalf("SIP: %s\r\n", err.Error())
 		case err := <-rs.E:
 			log.Printf("RTP: %s\r\n", err.Error())
-- 
2.43.0


From 2fcc3311a2597ab78d4c53a412db5315859f4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 46/50] fix: hang up when fone is terminated

---
 fone/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fone/main.go b/fone/main.go
index 9d241be..c13b615 100644
--- a/fone/main.go
+++ b/fone/main.go
@@ -31,6 +31,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"syscall"
 	"time"
 	"unsafe"
 
@@ -147,7 +148,7 @@ func main() {
 
 	// Ctrl+C or Kill Graceful Shutdown
 	death := make(chan os.Signal, 1)
-	signal.Notify(death, os.Interrupt, os.Kill)
+	signal.Notify(death, os.Interrupt, syscall.SIGTERM)
 
 	// DTMF Terminal Input
 	keyboard := make(chan byte)
-- 
2.43.0


From e0680118992e26e034eb9ce93f01dabe1cc44c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 47/50] fix: hang up when fone's media session fails

---
 fone/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fone/main.go b/fone/main.go
index c13b615..78f933d 100644
--- a/fone/main.go
+++ b/fone/main.go
@@ -172,6 +172,7 @@ func main() {
 	defer C.endwin()
 
 	// Let's GO!
+	frames, failure := rs.C, rs.E
 	var answered bool
 	var paerr C.int
 	for {
@@ -202,7 +203,11 @@ func main() {
 			log.Printf("DTMF: %c\r\n", ch)
 
 		// Receive Audio
-		case frame := <-rs.C:
+		case frame, ok := <-frames:
+			if !ok {
+				frames = nil
+				break
+			}
 			if len(frame) != psamps {
 				log.Printf("RTP: Received undersized frame: %d != %d\r\n", len(frame), psamps)
 			} else {
@@ -232,9 +237,10 @@ func main() {
 		case err := <-dl.OnErr:
 			C.endwin()
 			log.Fatalf("SIP: %s\r\n", err.Error())
-		case err := <-rs.E:
+		case err := <-failure:
 			log.Printf("RTP: %s\r\n", err.Error())
 			rs.CloseAfterError()
+			frames, failure = nil, nil
 			dl.Hangup <- true
 		case <-death:
 			dl.Hangup <- true
-- 
2.43.0


From 7d2ae1501b4ea154a086073c6ca72c24302cd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 48/50] fix: fone hangs for good when interrupted repeatedly
 while the server is looked up

---
 fone/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fone/main.go b/fone/main.go
index 78f933d..9a41445 100644
--- a/fone/main.go
+++ b/fone/main.go
@@ -146,6 +146,14 @@ func main() {
 	ticker := time.NewTicker(ptime * time.Millisecond)
 	defer ticker.Stop()
 
+	// The dialog doesn't listen while it's waiting for a name server.
+	hangup := func() {
+		select {
+		case dl.Hangup <- true:
+		default: // Enough of these are pending.
+		}
+	}
+
 	// Ctrl+C or Kill Graceful Shutdown
 	death := make(chan os.Signal, 1)
 	signal.Notify(death, os.Interrupt, syscall.SIGTERM)
@@ -241,9 +249,9 @@ func main() {
 			log.Printf("RTP: %s\r\n", err.Error())
 			rs.CloseAfterError()
 			frames, failure = nil, nil
-			dl.Hangup <- true
+			hangup()
 		case <-death:
-			dl.Hangup <- true
+			hangup()
 		}
 	}
 }
-- 
2.43.0


From be4f4958938d6b7b46d56b9f8bb9dc805a1962f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 49/50] fix: a generated sequence number of 0 counts as not set
 and is replaced when the message is sent again

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7a69062..ffd7c3a 100755
--- a/util/util.go
+++ b/util/util.go
@@ -40,14 +40,14 @@ func IsIPv6(ip string) bool {
 	return strings.Index(ip, ":") >= 0
 }
 
-// Generate a secure random number between 0 and 50,000.
+// Generate a secure random number between 1 and 50,000. Zero means not set.
 func GenerateCSeq() int {
 	nBig, err := rand.Int(rand.Reader, big.NewInt(50000))
 	if err != nil {
 		panic("could not get random int: " + err.Error())
 	}
 
-	return int(nBig.Int64())
+	return int(nBig.Int64()) + 1
 }
 
 // Generate a 48-bit secure random string like: 27c97271d363.
-- 
2.43.0


From 1977893ad4e601e00cf73f02a4cfdc12b133fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:32 +0000
Subject: [PATCH 50/50] fix: fone takes whatever the address service answers,
 an error page included, for its address

---
 fone/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fone/main.go b/fone/main.go
index 9a41445..794ad06 100644
--- a/fone/main.go
+++ b/fone/main.go
@@ -310,5 +310,8 @@ func getPublicIP() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.StatusCode != http.StatusOK || net.ParseIP(string(body)) == nil {
+		return "", errors.New("Public IP lookup failed: " + resp.Status)
+	}
 	return string(body), nil
 }
-- 
2.43.0

