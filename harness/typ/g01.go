package main

func G01_One_Words() { trip(kWords) }
func G01_One_Flags() { trip(kFlags) }
func G01_One_Ints() { trip(kInts) }
func G01_One_Uints() { trip(kUints) }
func G01_One_IntPtrs() { trip(kIntPtrs) }
func G01_One_UintPtrs() { trip(kUintPtrs) }
func G01_One_Floats() { trip(kFloats) }
func G01_One_Char() { trip(kChar) }
func G01_One_Byte() { trip(kByte) }
func G01_One_Times() { trip(kTimes) }
func G01_One_Blobs() { trip(kBlobs) }
func G01_One_Raw() { trip(kRaw) }
func G01_One_Fixed() { trip(kFixed) }
func G01_One_Nulls() { trip(kNulls) }
func G01_One_Own() { trip(kOwn) }
func G01_One_Lists() { trip(kLists) }
func G01_One_Lists2() { trip(kLists2) }
func G01_One_Lists3() { trip(kLists3) }
func G01_One_Named() { trip(kNamed) }
func G01_One_Lists4() { trip(kLists4) }
func G01_One_Docs() { trip(kDocs) }
func G01_Two_Docs() { pair(kDocs) }
func G01_One_Placed() { trip(kPlaced) }
func G01_One_Foreign() { trip(kForeign) }
func G01_Two_Foreign() { pair(kForeign) }

func G01_Two_Words() { pair(kWords) }
func G01_Two_Uints() { pair(kUints) }
func G01_Two_IntPtrs() { pair(kIntPtrs) }
func G01_Two_Times() { pair(kTimes) }
func G01_Two_Blobs() { pair(kBlobs) }
func G01_Two_Raw() { pair(kRaw) }
func G01_Two_Fixed() { pair(kFixed) }
func G01_Two_Nulls() { pair(kNulls) }
func G01_Two_Own() { pair(kOwn) }
func G01_Two_Lists3() { pair(kLists3) }
func G01_Two_Named() { pair(kNamed) }
func G01_Two_Lists4() { pair(kLists4) }
func G01_Two_Placed() { pair(kPlaced) }
