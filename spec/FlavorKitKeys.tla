--------------------------- MODULE FlavorKitKeys ---------------------------
(* The coefficients of the FlavorKit basis: name and flavour indices.      *)
EXTENDS Integers, TLC
I4(S) == { << n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10 >> : n \in S }
I2(S) == { << n \div 10, n % 10 >> : n \in S }
FKIdx ==
  "ASRR" :> I4({ 1112, 1113, 1121, 1123, 1131, 1132, 1212, 1213, 1231, 1232, 1313, 1321, 1323, 2121, 2123, 
       2131, 2132, 2212, 2213, 2221, 2223, 2231, 2232, 2312, 2323, 3123, 3131, 3132, 3213, 3232, 3312, 3313, 
       3321, 3323, 3331, 3332 })
  @@ "AVLL" :> I4({ 1121, 1123, 1131, 1212, 1213, 1232, 1313, 1323, 2221, 2223, 2231, 2323, 3321, 3323, 
       3331 })
  @@ "AVLR" :> I4({ 1121, 1123, 1131, 1212, 1213, 1231, 1232, 1312, 1313, 1321, 1323, 2111, 2122, 2132, 2133, 
       2221, 2223, 2231, 2311, 2312, 2313, 2321, 2322, 2323, 2333, 3111, 3122, 3123, 3133, 3213, 3321, 3323, 
       3331 })
  @@ "AVRR" :> I4({ 1121, 1123, 1131, 1212, 1213, 1232, 1313, 1323, 2221, 2223, 2231, 2323, 3321, 3323, 
       3331 })
  @@ "BSRL" :> I4({ 1211, 1222, 1233, 1311, 1322, 1333, 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133, 
       3211, 3222, 3233 })
  @@ "BSRR" :> I4({ 1211, 1222, 1233, 1311, 1322, 1333, 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133, 
       3211, 3222, 3233 })
  @@ "BTRR" :> I4({ 1211, 1222, 1233, 1311, 1322, 1333, 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133, 
       3211, 3222, 3233 })
  @@ "BVLL" :> I4({ 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133 })
  @@ "BVLR" :> I4({ 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133 })
  @@ "BVRR" :> I4({ 2111, 2122, 2133, 2311, 2322, 2333, 3111, 3122, 3133 })
  @@ "CSRL" :> I4({ 1211, 1222, 1311, 1322, 2111, 2122, 2311, 2322, 3111, 3122, 3211, 3222 })
  @@ "CSRR" :> I4({ 1211, 1222, 1311, 1322, 2111, 2122, 2311, 2322, 3111, 3122, 3211, 3222 })
  @@ "CTRR" :> I4({ 1211, 1222, 1311, 1322, 2111, 2122, 2311, 2322, 3111, 3122, 3211, 3222 })
  @@ "CVLL" :> I4({ 2111, 2122, 2311, 2322, 3111, 3122 })
  @@ "CVLR" :> I4({ 2111, 2122, 2311, 2322, 3111, 3122 })
  @@ "CVRR" :> I4({ 2111, 2122, 2311, 2322, 3111, 3122 })
  @@ "DSRR" :> I4({ 1211, 1212, 1213, 1222, 1231, 1232, 1233, 1311, 1313, 1321, 1322, 1323, 1333, 2111, 2121, 
       2122, 2123, 2131, 2132, 2133, 2311, 2312, 2322, 2323, 2333, 3111, 3122, 3123, 3131, 3132, 3133, 3211, 
       3213, 3222, 3232, 3233 })
  @@ "DVLL" :> I4({ 1211, 1212, 1213, 1222, 1231, 1232, 1233, 1311, 1313, 1322, 1323, 1333, 2132, 2311, 2322, 
       2323, 2333, 3123 })
  @@ "DVLR" :> I4({ 1211, 1212, 1213, 1222, 1231, 1232, 1233, 1311, 1312, 1313, 1321, 1322, 1323, 1333, 2132, 
       2311, 2312, 2313, 2321, 2322, 2323, 2333, 3123, 3213 })
  @@ "DVRL" :> I4({ 1211, 1222, 1233, 1311, 1322, 1333, 2311, 2322, 2333 })
  @@ "DVRR" :> I4({ 1211, 1212, 1213, 1222, 1231, 1232, 1233, 1311, 1313, 1322, 1323, 1333, 2132, 2311, 2322, 
       2323, 2333, 3123 })
  @@ "ESLR" :> I4({ 1211, 1212, 1213, 1221, 1222, 1223, 1231, 1232, 1233, 1311, 1312, 1313, 1321, 1322, 1323, 
       1331, 1332, 1333, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2311, 2312, 2313, 2321, 2322, 
       2323, 2331, 2332, 2333, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "ESRR" :> I4({ 1211, 1212, 1213, 1221, 1222, 1223, 1231, 1232, 1233, 1311, 1312, 1313, 1321, 1322, 1323, 
       1331, 1332, 1333, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2311, 2312, 2313, 2321, 2322, 
       2323, 2331, 2332, 2333, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "ETRR" :> I4({ 1211, 1212, 1213, 1221, 1222, 1223, 1231, 1232, 1233, 1311, 1312, 1313, 1321, 1322, 1323, 
       1331, 1332, 1333, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2311, 2312, 2313, 2321, 2322, 
       2323, 2331, 2332, 2333, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "EVLL" :> I4({ 1211, 1212, 1213, 1222, 1223, 1233, 1311, 1312, 1313, 1322, 1323, 1333, 2112, 2113, 2123, 
       2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 3223 })
  @@ "EVLR" :> I4({ 1121, 1123, 1131, 1211, 1212, 1213, 1222, 1223, 1233, 1311, 1312, 1313, 1322, 1323, 1333, 
       2112, 2113, 2123, 2221, 2223, 2231, 2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 
       3223, 3321, 3323, 3331 })
  @@ "EVRL" :> I4({ 1211, 1212, 1213, 1222, 1223, 1233, 1311, 1312, 1313, 1322, 1323, 1333, 2112, 2113, 2123, 
       2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 3223 })
  @@ "EVRR" :> I4({ 1211, 1212, 1213, 1222, 1223, 1233, 1311, 1312, 1313, 1322, 1323, 1333, 2112, 2113, 2123, 
       2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 3223 })
  @@ "FVLL" :> I4({ 1212, 1213, 1223, 1311, 1312, 1313, 1322, 1323, 1333, 2111, 2112, 2113, 2122, 2123, 2133, 
       2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 3223 })
  @@ "FVRL" :> I4({ 1212, 1213, 1223, 1311, 1312, 1313, 1322, 1323, 1333, 2111, 2112, 2113, 2122, 2123, 2133, 
       2311, 2312, 2313, 2322, 2323, 2333, 3112, 3113, 3123, 3212, 3213, 3223 })
  @@ "GSLL" :> I4({ 1111, 1112, 1113, 1121, 1122, 1123, 1131, 1132, 1133, 1211, 1212, 1213, 1221, 1222, 1223, 
       1231, 1232, 1233, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2211, 2212, 2213, 2221, 2222, 
       2223, 2231, 2232, 2233, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "GSRL" :> I4({ 1111, 1112, 1113, 1121, 1122, 1123, 1131, 1132, 1133, 1211, 1212, 1213, 1221, 1222, 1223, 
       1231, 1232, 1233, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2211, 2212, 2213, 2221, 2222, 
       2223, 2231, 2232, 2233, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "GVLL" :> I4({ 1111, 1112, 1113, 1121, 1122, 1123, 1131, 1132, 1133, 1211, 1212, 1213, 1221, 1222, 1223, 
       1231, 1232, 1233, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2211, 2212, 2213, 2221, 2222, 
       2223, 2231, 2232, 2233, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "GVRL" :> I4({ 1111, 1112, 1113, 1121, 1122, 1123, 1131, 1132, 1133, 1211, 1212, 1213, 1221, 1222, 1223, 
       1231, 1232, 1233, 2111, 2112, 2113, 2121, 2122, 2123, 2131, 2132, 2133, 2211, 2212, 2213, 2221, 2222, 
       2223, 2231, 2232, 2233, 3111, 3112, 3113, 3121, 3122, 3123, 3131, 3132, 3133, 3211, 3212, 3213, 3221, 
       3222, 3223, 3231, 3232, 3233 })
  @@ "K2R" :> I2({ 12, 13, 21, 23, 31, 32 })
  @@ "Q1R" :> I2({ 12, 13, 21, 23, 31, 32 })
  @@ "Q2R" :> I2({ 12, 13, 21, 23, 31, 32 })
=============================================================================
