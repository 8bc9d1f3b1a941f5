// Fixed-layout tables: each field is the big-endian number at its offset in the OpenType layout.

func (*font).parseHead
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C04] present: err == nil ==> (ret0 != nil) == hasTable(f, "head")
  ensures [C04,C18] whole: err == nil && ret0 != nil ==> tabOff(f, "head") + 54 <= flen(r) && fresh(ret0)
  ensures [C04] magic: err == nil && ret0 != nil ==> ret0.magicNumber == 0x5F0F3CF5
  ensures [C04] majorVersion: err == nil && ret0 != nil ==> ret0.majorVersion == u16(r, tabOff(f, "head")+0)
  ensures [C04] minorVersion: err == nil && ret0 != nil ==> ret0.minorVersion == u16(r, tabOff(f, "head")+2)
  ensures [C04] fontRevision: err == nil && ret0 != nil ==> ret0.fontRevision == i32(r, tabOff(f, "head")+4)
  ensures [C04] checksumAdjustment: err == nil && ret0 != nil ==> ret0.checksumAdjustment == u32(r, tabOff(f, "head")+8)
  ensures [C04] magicNumber: err == nil && ret0 != nil ==> ret0.magicNumber == u32(r, tabOff(f, "head")+12)
  ensures [C04] flags: err == nil && ret0 != nil ==> ret0.flags == u16(r, tabOff(f, "head")+16)
  ensures [C04] unitsPerEm: err == nil && ret0 != nil ==> ret0.unitsPerEm == u16(r, tabOff(f, "head")+18)
  ensures [C04] created: err == nil && ret0 != nil ==> ret0.created == i64(r, tabOff(f, "head")+20)
  ensures [C04] modified: err == nil && ret0 != nil ==> ret0.modified == i64(r, tabOff(f, "head")+28)
  ensures [C04] xMin: err == nil && ret0 != nil ==> ret0.xMin == i16(r, tabOff(f, "head")+36)
  ensures [C04] yMin: err == nil && ret0 != nil ==> ret0.yMin == i16(r, tabOff(f, "head")+38)
  ensures [C04] xMax: err == nil && ret0 != nil ==> ret0.xMax == i16(r, tabOff(f, "head")+40)
  ensures [C04] yMax: err == nil && ret0 != nil ==> ret0.yMax == i16(r, tabOff(f, "head")+42)
  ensures [C04] macStyle: err == nil && ret0 != nil ==> ret0.macStyle == u16(r, tabOff(f, "head")+44)
  ensures [C04] lowestRecPPEM: err == nil && ret0 != nil ==> ret0.lowestRecPPEM == u16(r, tabOff(f, "head")+46)
  ensures [C04] fontDirectionHint: err == nil && ret0 != nil ==> ret0.fontDirectionHint == i16(r, tabOff(f, "head")+48)
  ensures [C04] indexToLocFormat: err == nil && ret0 != nil ==> ret0.indexToLocFormat == i16(r, tabOff(f, "head")+50)
  ensures [C04] glyphDataFormat: err == nil && ret0 != nil ==> ret0.glyphDataFormat == i16(r, tabOff(f, "head")+52)
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeHead
  modifies buffer(w), w.len
  ensures [C18] missing: !(f.head != nil) ==> err != nil
  ensures [C02,C18] ok: f.head != nil ==> err == nil
  ensures [C04] len: f.head != nil ==> bl(w) == old(bl(w)) + 54
  ensures [C04] majorVersion: f.head != nil ==> b16(w, old(bl(w))+0) == u16(f.head.majorVersion)
  ensures [C04] minorVersion: f.head != nil ==> b16(w, old(bl(w))+2) == u16(f.head.minorVersion)
  ensures [C04] fontRevision: f.head != nil ==> b32(w, old(bl(w))+4) == u32(f.head.fontRevision)
  ensures [C04] checksumAdjustment: f.head != nil ==> b32(w, old(bl(w))+8) == u32(f.head.checksumAdjustment)
  ensures [C04] magicNumber: f.head != nil ==> b32(w, old(bl(w))+12) == u32(f.head.magicNumber)
  ensures [C04] flags: f.head != nil ==> b16(w, old(bl(w))+16) == u16(f.head.flags)
  ensures [C04] unitsPerEm: f.head != nil ==> b16(w, old(bl(w))+18) == u16(f.head.unitsPerEm)
  ensures [C04] created: f.head != nil ==> b64(w, old(bl(w))+20) == u64(f.head.created)
  ensures [C04] modified: f.head != nil ==> b64(w, old(bl(w))+28) == u64(f.head.modified)
  ensures [C04] xMin: f.head != nil ==> b16(w, old(bl(w))+36) == u16(f.head.xMin)
  ensures [C04] yMin: f.head != nil ==> b16(w, old(bl(w))+38) == u16(f.head.yMin)
  ensures [C04] xMax: f.head != nil ==> b16(w, old(bl(w))+40) == u16(f.head.xMax)
  ensures [C04] yMax: f.head != nil ==> b16(w, old(bl(w))+42) == u16(f.head.yMax)
  ensures [C04] macStyle: f.head != nil ==> b16(w, old(bl(w))+44) == u16(f.head.macStyle)
  ensures [C04] lowestRecPPEM: f.head != nil ==> b16(w, old(bl(w))+46) == u16(f.head.lowestRecPPEM)
  ensures [C04] fontDirectionHint: f.head != nil ==> b16(w, old(bl(w))+48) == u16(f.head.fontDirectionHint)
  ensures [C04] indexToLocFormat: f.head != nil ==> b16(w, old(bl(w))+50) == u16(f.head.indexToLocFormat)
  ensures [C04] glyphDataFormat: f.head != nil ==> b16(w, old(bl(w))+52) == u16(f.head.glyphDataFormat)
  ensures kept(w)

func (*font).parseMaxp
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C04] present: err == nil ==> (ret0 != nil) == hasTable(f, "maxp")
  ensures [C04,C18] whole: err == nil && ret0 != nil ==> tabOff(f, "maxp") + 32 <= flen(r) && fresh(ret0)
  ensures [C04] version: err == nil && ret0 != nil ==> ret0.version >= 0x00010000
  ensures [C04] version: err == nil && ret0 != nil ==> ret0.version == i32(r, tabOff(f, "maxp")+0)
  ensures [C04] numGlyphs: err == nil && ret0 != nil ==> ret0.numGlyphs == u16(r, tabOff(f, "maxp")+4)
  ensures [C04] maxPoints: err == nil && ret0 != nil ==> ret0.maxPoints == u16(r, tabOff(f, "maxp")+6)
  ensures [C04] maxContours: err == nil && ret0 != nil ==> ret0.maxContours == u16(r, tabOff(f, "maxp")+8)
  ensures [C04] maxCompositePoints: err == nil && ret0 != nil ==> ret0.maxCompositePoints == u16(r, tabOff(f, "maxp")+10)
  ensures [C04] maxCompositeContours: err == nil && ret0 != nil ==> ret0.maxCompositeContours == u16(r, tabOff(f, "maxp")+12)
  ensures [C04] maxZones: err == nil && ret0 != nil ==> ret0.maxZones == u16(r, tabOff(f, "maxp")+14)
  ensures [C04] maxTwilightPoints: err == nil && ret0 != nil ==> ret0.maxTwilightPoints == u16(r, tabOff(f, "maxp")+16)
  ensures [C04] maxStorage: err == nil && ret0 != nil ==> ret0.maxStorage == u16(r, tabOff(f, "maxp")+18)
  ensures [C04] maxFunctionDefs: err == nil && ret0 != nil ==> ret0.maxFunctionDefs == u16(r, tabOff(f, "maxp")+20)
  ensures [C04] maxInstructionDefs: err == nil && ret0 != nil ==> ret0.maxInstructionDefs == u16(r, tabOff(f, "maxp")+22)
  ensures [C04] maxStackElements: err == nil && ret0 != nil ==> ret0.maxStackElements == u16(r, tabOff(f, "maxp")+24)
  ensures [C04] maxSizeOfInstructions: err == nil && ret0 != nil ==> ret0.maxSizeOfInstructions == u16(r, tabOff(f, "maxp")+26)
  ensures [C04] maxComponentElements: err == nil && ret0 != nil ==> ret0.maxComponentElements == u16(r, tabOff(f, "maxp")+28)
  ensures [C04] maxComponentDepth: err == nil && ret0 != nil ==> ret0.maxComponentDepth == u16(r, tabOff(f, "maxp")+30)
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeMaxp
  modifies buffer(w), w.len
  ensures [C18] missing: !(f.maxp != nil) ==> err != nil
  ensures [C02,C18] ok: f.maxp != nil && f.maxp.version >= 0x00010000 ==> err == nil
  ensures [C04] len: f.maxp != nil && f.maxp.version >= 0x00010000 ==> bl(w) == old(bl(w)) + 32
  ensures [C04] version: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b32(w, old(bl(w))+0) == u32(f.maxp.version)
  ensures [C04] numGlyphs: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+4) == u16(f.maxp.numGlyphs)
  ensures [C04] maxPoints: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+6) == u16(f.maxp.maxPoints)
  ensures [C04] maxContours: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+8) == u16(f.maxp.maxContours)
  ensures [C04] maxCompositePoints: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+10) == u16(f.maxp.maxCompositePoints)
  ensures [C04] maxCompositeContours: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+12) == u16(f.maxp.maxCompositeContours)
  ensures [C04] maxZones: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+14) == u16(f.maxp.maxZones)
  ensures [C04] maxTwilightPoints: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+16) == u16(f.maxp.maxTwilightPoints)
  ensures [C04] maxStorage: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+18) == u16(f.maxp.maxStorage)
  ensures [C04] maxFunctionDefs: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+20) == u16(f.maxp.maxFunctionDefs)
  ensures [C04] maxInstructionDefs: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+22) == u16(f.maxp.maxInstructionDefs)
  ensures [C04] maxStackElements: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+24) == u16(f.maxp.maxStackElements)
  ensures [C04] maxSizeOfInstructions: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+26) == u16(f.maxp.maxSizeOfInstructions)
  ensures [C04] maxComponentElements: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+28) == u16(f.maxp.maxComponentElements)
  ensures [C04] maxComponentDepth: f.maxp != nil && f.maxp.version >= 0x00010000 ==> b16(w, old(bl(w))+30) == u16(f.maxp.maxComponentDepth)
  ensures kept(w)

func (*font).parseHhea
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C04] present: err == nil ==> (ret0 != nil) == hasTable(f, "hhea")
  ensures [C04,C18] whole: err == nil && ret0 != nil ==> tabOff(f, "hhea") + 36 <= flen(r) && fresh(ret0)
  ensures [C04] majorVersion: err == nil && ret0 != nil ==> ret0.majorVersion == u16(r, tabOff(f, "hhea")+0)
  ensures [C04] minorVersion: err == nil && ret0 != nil ==> ret0.minorVersion == u16(r, tabOff(f, "hhea")+2)
  ensures [C04] ascender: err == nil && ret0 != nil ==> ret0.ascender == i16(r, tabOff(f, "hhea")+4)
  ensures [C04] descender: err == nil && ret0 != nil ==> ret0.descender == i16(r, tabOff(f, "hhea")+6)
  ensures [C04] lineGap: err == nil && ret0 != nil ==> ret0.lineGap == i16(r, tabOff(f, "hhea")+8)
  ensures [C04] advanceWidthMax: err == nil && ret0 != nil ==> ret0.advanceWidthMax == u16(r, tabOff(f, "hhea")+10)
  ensures [C04] minLeftSideBearing: err == nil && ret0 != nil ==> ret0.minLeftSideBearing == i16(r, tabOff(f, "hhea")+12)
  ensures [C04] minRightSideBearing: err == nil && ret0 != nil ==> ret0.minRightSideBearing == i16(r, tabOff(f, "hhea")+14)
  ensures [C04] xMaxExtent: err == nil && ret0 != nil ==> ret0.xMaxExtent == i16(r, tabOff(f, "hhea")+16)
  ensures [C04] caretSlopeRise: err == nil && ret0 != nil ==> ret0.caretSlopeRise == i16(r, tabOff(f, "hhea")+18)
  ensures [C04] caretSlopeRun: err == nil && ret0 != nil ==> ret0.caretSlopeRun == i16(r, tabOff(f, "hhea")+20)
  ensures [C04] caretOffset: err == nil && ret0 != nil ==> ret0.caretOffset == i16(r, tabOff(f, "hhea")+22)
  ensures [C04] metricDataFormat: err == nil && ret0 != nil ==> ret0.metricDataFormat == i16(r, tabOff(f, "hhea")+32)
  ensures [C04] numberOfHMetrics: err == nil && ret0 != nil ==> ret0.numberOfHMetrics == u16(r, tabOff(f, "hhea")+34)
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeHhea
  modifies buffer(w), w.len
  ensures f.hhea == nil ==> err == nil && bl(w) == old(bl(w))
  ensures [C02,C18] ok: f.hhea != nil ==> err == nil
  ensures [C04] len: f.hhea != nil ==> bl(w) == old(bl(w)) + 36
  ensures [C04] majorVersion: f.hhea != nil ==> b16(w, old(bl(w))+0) == u16(f.hhea.majorVersion)
  ensures [C04] minorVersion: f.hhea != nil ==> b16(w, old(bl(w))+2) == u16(f.hhea.minorVersion)
  ensures [C04] ascender: f.hhea != nil ==> b16(w, old(bl(w))+4) == u16(f.hhea.ascender)
  ensures [C04] descender: f.hhea != nil ==> b16(w, old(bl(w))+6) == u16(f.hhea.descender)
  ensures [C04] lineGap: f.hhea != nil ==> b16(w, old(bl(w))+8) == u16(f.hhea.lineGap)
  ensures [C04] advanceWidthMax: f.hhea != nil ==> b16(w, old(bl(w))+10) == u16(f.hhea.advanceWidthMax)
  ensures [C04] minLeftSideBearing: f.hhea != nil ==> b16(w, old(bl(w))+12) == u16(f.hhea.minLeftSideBearing)
  ensures [C04] minRightSideBearing: f.hhea != nil ==> b16(w, old(bl(w))+14) == u16(f.hhea.minRightSideBearing)
  ensures [C04] xMaxExtent: f.hhea != nil ==> b16(w, old(bl(w))+16) == u16(f.hhea.xMaxExtent)
  ensures [C04] caretSlopeRise: f.hhea != nil ==> b16(w, old(bl(w))+18) == u16(f.hhea.caretSlopeRise)
  ensures [C04] caretSlopeRun: f.hhea != nil ==> b16(w, old(bl(w))+20) == u16(f.hhea.caretSlopeRun)
  ensures [C04] caretOffset: f.hhea != nil ==> b16(w, old(bl(w))+22) == u16(f.hhea.caretOffset)
  ensures [C04] reserved24: f.hhea != nil ==> b16(w, old(bl(w))+24) == 0
  ensures [C04] reserved26: f.hhea != nil ==> b16(w, old(bl(w))+26) == 0
  ensures [C04] reserved28: f.hhea != nil ==> b16(w, old(bl(w))+28) == 0
  ensures [C04] reserved30: f.hhea != nil ==> b16(w, old(bl(w))+30) == 0
  ensures [C04] metricDataFormat: f.hhea != nil ==> b16(w, old(bl(w))+32) == u16(f.hhea.metricDataFormat)
  ensures [C04] numberOfHMetrics: f.hhea != nil ==> b16(w, old(bl(w))+34) == u16(f.hhea.numberOfHMetrics)
  ensures kept(w)

def os2len(v) = ite(v == 0, 78, ite(v == 1, 86, ite(v < 5, 96, 100)))

func (*font).parseOS2Table
  requires rd(r) && recok(f)
  modifies reader(r), r.reader
  ensures [C04] present: err == nil ==> (ret0 != nil) == hasTable(f, "OS/2")
  ensures [C04,C18] whole: err == nil && ret0 != nil ==> tabOff(f, "OS/2") + os2len(ret0.version) <= flen(r) && fresh(ret0)
  ensures [C04] limit: err == nil && ret0 != nil ==> ret0.version <= 10
  ensures [C04] version: err == nil && ret0 != nil ==> ret0.version == u16(r, tabOff(f, "OS/2")+0)
  ensures [C04] xAvgCharWidth: err == nil && ret0 != nil ==> ret0.xAvgCharWidth == i16(r, tabOff(f, "OS/2")+2)
  ensures [C04] usWeightClass: err == nil && ret0 != nil ==> ret0.usWeightClass == u16(r, tabOff(f, "OS/2")+4)
  ensures [C04] usWidthClass: err == nil && ret0 != nil ==> ret0.usWidthClass == u16(r, tabOff(f, "OS/2")+6)
  ensures [C04] fsType: err == nil && ret0 != nil ==> ret0.fsType == u16(r, tabOff(f, "OS/2")+8)
  ensures [C04] ySubscriptXSize: err == nil && ret0 != nil ==> ret0.ySubscriptXSize == i16(r, tabOff(f, "OS/2")+10)
  ensures [C04] ySubscriptYSize: err == nil && ret0 != nil ==> ret0.ySubscriptYSize == i16(r, tabOff(f, "OS/2")+12)
  ensures [C04] ySubscriptXOffset: err == nil && ret0 != nil ==> ret0.ySubscriptXOffset == i16(r, tabOff(f, "OS/2")+14)
  ensures [C04] ySubscriptYOffset: err == nil && ret0 != nil ==> ret0.ySubscriptYOffset == i16(r, tabOff(f, "OS/2")+16)
  ensures [C04] ySuperscriptXSize: err == nil && ret0 != nil ==> ret0.ySuperscriptXSize == i16(r, tabOff(f, "OS/2")+18)
  ensures [C04] ySuperscriptYSize: err == nil && ret0 != nil ==> ret0.ySuperscriptYSize == i16(r, tabOff(f, "OS/2")+20)
  ensures [C04] ySuperscriptXOffset: err == nil && ret0 != nil ==> ret0.ySuperscriptXOffset == i16(r, tabOff(f, "OS/2")+22)
  ensures [C04] ySuperscriptYOffset: err == nil && ret0 != nil ==> ret0.ySuperscriptYOffset == i16(r, tabOff(f, "OS/2")+24)
  ensures [C04] yStrikeoutSize: err == nil && ret0 != nil ==> ret0.yStrikeoutSize == i16(r, tabOff(f, "OS/2")+26)
  ensures [C04] yStrikeoutPosition: err == nil && ret0 != nil ==> ret0.yStrikeoutPosition == i16(r, tabOff(f, "OS/2")+28)
  ensures [C04] sFamilyClass: err == nil && ret0 != nil ==> ret0.sFamilyClass == i16(r, tabOff(f, "OS/2")+30)
  ensures [C04] panose: err == nil && ret0 != nil ==> len(ret0.panose10) == 10 && forall(k, 0, 10, ret0.panose10[k] == fbyte(r, tabOff(f, "OS/2")+32+k))
  ensures [C04] ulUnicodeRange1: err == nil && ret0 != nil ==> ret0.ulUnicodeRange1 == u32(r, tabOff(f, "OS/2")+42)
  ensures [C04] ulUnicodeRange2: err == nil && ret0 != nil ==> ret0.ulUnicodeRange2 == u32(r, tabOff(f, "OS/2")+46)
  ensures [C04] ulUnicodeRange3: err == nil && ret0 != nil ==> ret0.ulUnicodeRange3 == u32(r, tabOff(f, "OS/2")+50)
  ensures [C04] ulUnicodeRange4: err == nil && ret0 != nil ==> ret0.ulUnicodeRange4 == u32(r, tabOff(f, "OS/2")+54)
  ensures [C04] achVendID: err == nil && ret0 != nil ==> forall(k, 0, 4, ret0.achVendID[k] == fbyte(r, tabOff(f, "OS/2")+58+k))
  ensures [C04] fsSelection: err == nil && ret0 != nil ==> ret0.fsSelection == u16(r, tabOff(f, "OS/2")+62)
  ensures [C04] usFirstCharIndex: err == nil && ret0 != nil ==> ret0.usFirstCharIndex == u16(r, tabOff(f, "OS/2")+64)
  ensures [C04] usLastCharIndex: err == nil && ret0 != nil ==> ret0.usLastCharIndex == u16(r, tabOff(f, "OS/2")+66)
  ensures [C04] sTypoAscender: err == nil && ret0 != nil ==> ret0.sTypoAscender == i16(r, tabOff(f, "OS/2")+68)
  ensures [C04] sTypoDescender: err == nil && ret0 != nil ==> ret0.sTypoDescender == i16(r, tabOff(f, "OS/2")+70)
  ensures [C04] sTypoLineGap: err == nil && ret0 != nil ==> ret0.sTypoLineGap == i16(r, tabOff(f, "OS/2")+72)
  ensures [C04] usWinAscent: err == nil && ret0 != nil ==> ret0.usWinAscent == u16(r, tabOff(f, "OS/2")+74)
  ensures [C04] usWinDescent: err == nil && ret0 != nil ==> ret0.usWinDescent == u16(r, tabOff(f, "OS/2")+76)
  ensures [C04] ulCodePageRange1: err == nil && ret0 != nil && ret0.version >= 1 ==> ret0.ulCodePageRange1 == u32(r, tabOff(f, "OS/2")+78)
  ensures [C04] ulCodePageRange2: err == nil && ret0 != nil && ret0.version >= 1 ==> ret0.ulCodePageRange2 == u32(r, tabOff(f, "OS/2")+82)
  ensures [C04] sxHeight: err == nil && ret0 != nil && ret0.version >= 2 ==> ret0.sxHeight == i16(r, tabOff(f, "OS/2")+86)
  ensures [C04] sCapHeight: err == nil && ret0 != nil && ret0.version >= 2 ==> ret0.sCapHeight == i16(r, tabOff(f, "OS/2")+88)
  ensures [C04] usDefaultChar: err == nil && ret0 != nil && ret0.version >= 2 ==> ret0.usDefaultChar == u16(r, tabOff(f, "OS/2")+90)
  ensures [C04] usBreakChar: err == nil && ret0 != nil && ret0.version >= 2 ==> ret0.usBreakChar == u16(r, tabOff(f, "OS/2")+92)
  ensures [C04] usMaxContext: err == nil && ret0 != nil && ret0.version >= 2 ==> ret0.usMaxContext == u16(r, tabOff(f, "OS/2")+94)
  ensures [C04] usLowerOpticalPointSize: err == nil && ret0 != nil && ret0.version >= 5 ==> ret0.usLowerOpticalPointSize == u16(r, tabOff(f, "OS/2")+96)
  ensures [C04] usUpperOpticalPointSize: err == nil && ret0 != nil && ret0.version >= 5 ==> ret0.usUpperOpticalPointSize == u16(r, tabOff(f, "OS/2")+98)
  ensures rdsame(r)
  ensures err == nil ==> rd(r)

func (*font).writeOS2
  modifies buffer(w), w.len
  ensures f.os2 == nil ==> bl(w) == old(bl(w))
  ensures [C04] len: f.os2 != nil && len(f.os2.panose10) == 10 ==> bl(w) == old(bl(w)) + os2len(f.os2.version)
  ensures [C04] version: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+0) == u16(f.os2.version)
  ensures [C04] xAvgCharWidth: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+2) == u16(f.os2.xAvgCharWidth)
  ensures [C04] usWeightClass: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+4) == u16(f.os2.usWeightClass)
  ensures [C04] usWidthClass: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+6) == u16(f.os2.usWidthClass)
  ensures [C04] fsType: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+8) == u16(f.os2.fsType)
  ensures [C04] ySubscriptXSize: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+10) == u16(f.os2.ySubscriptXSize)
  ensures [C04] ySubscriptYSize: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+12) == u16(f.os2.ySubscriptYSize)
  ensures [C04] ySubscriptXOffset: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+14) == u16(f.os2.ySubscriptXOffset)
  ensures [C04] ySubscriptYOffset: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+16) == u16(f.os2.ySubscriptYOffset)
  ensures [C04] ySuperscriptXSize: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+18) == u16(f.os2.ySuperscriptXSize)
  ensures [C04] ySuperscriptYSize: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+20) == u16(f.os2.ySuperscriptYSize)
  ensures [C04] ySuperscriptXOffset: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+22) == u16(f.os2.ySuperscriptXOffset)
  ensures [C04] ySuperscriptYOffset: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+24) == u16(f.os2.ySuperscriptYOffset)
  ensures [C04] yStrikeoutSize: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+26) == u16(f.os2.yStrikeoutSize)
  ensures [C04] yStrikeoutPosition: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+28) == u16(f.os2.yStrikeoutPosition)
  ensures [C04] sFamilyClass: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+30) == u16(f.os2.sFamilyClass)
  ensures [C04] panose: f.os2 != nil && len(f.os2.panose10) == 10 ==> forall(k, 0, 10, b8(w, old(bl(w))+32+k) == f.os2.panose10[k])
  ensures [C04] ulUnicodeRange1: f.os2 != nil && len(f.os2.panose10) == 10 ==> b32(w, old(bl(w))+42) == u32(f.os2.ulUnicodeRange1)
  ensures [C04] ulUnicodeRange2: f.os2 != nil && len(f.os2.panose10) == 10 ==> b32(w, old(bl(w))+46) == u32(f.os2.ulUnicodeRange2)
  ensures [C04] ulUnicodeRange3: f.os2 != nil && len(f.os2.panose10) == 10 ==> b32(w, old(bl(w))+50) == u32(f.os2.ulUnicodeRange3)
  ensures [C04] ulUnicodeRange4: f.os2 != nil && len(f.os2.panose10) == 10 ==> b32(w, old(bl(w))+54) == u32(f.os2.ulUnicodeRange4)
  ensures [C04] achVendID: f.os2 != nil && len(f.os2.panose10) == 10 ==> forall(k, 0, 4, b8(w, old(bl(w))+58+k) == f.os2.achVendID[k])
  ensures [C04] fsSelection: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+62) == u16(f.os2.fsSelection)
  ensures [C04] usFirstCharIndex: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+64) == u16(f.os2.usFirstCharIndex)
  ensures [C04] usLastCharIndex: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+66) == u16(f.os2.usLastCharIndex)
  ensures [C04] sTypoAscender: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+68) == u16(f.os2.sTypoAscender)
  ensures [C04] sTypoDescender: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+70) == u16(f.os2.sTypoDescender)
  ensures [C04] sTypoLineGap: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+72) == u16(f.os2.sTypoLineGap)
  ensures [C04] usWinAscent: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+74) == u16(f.os2.usWinAscent)
  ensures [C04] usWinDescent: f.os2 != nil && len(f.os2.panose10) == 10 ==> b16(w, old(bl(w))+76) == u16(f.os2.usWinDescent)
  ensures [C04] ulCodePageRange1: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 1 ==> b32(w, old(bl(w))+78) == u32(f.os2.ulCodePageRange1)
  ensures [C04] ulCodePageRange2: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 1 ==> b32(w, old(bl(w))+82) == u32(f.os2.ulCodePageRange2)
  ensures [C04] sxHeight: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 2 ==> b16(w, old(bl(w))+86) == u16(f.os2.sxHeight)
  ensures [C04] sCapHeight: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 2 ==> b16(w, old(bl(w))+88) == u16(f.os2.sCapHeight)
  ensures [C04] usDefaultChar: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 2 ==> b16(w, old(bl(w))+90) == u16(f.os2.usDefaultChar)
  ensures [C04] usBreakChar: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 2 ==> b16(w, old(bl(w))+92) == u16(f.os2.usBreakChar)
  ensures [C04] usMaxContext: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 2 ==> b16(w, old(bl(w))+94) == u16(f.os2.usMaxContext)
  ensures [C04] usLowerOpticalPointSize: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 5 ==> b16(w, old(bl(w))+96) == u16(f.os2.usLowerOpticalPointSize)
  ensures [C04] usUpperOpticalPointSize: f.os2 != nil && len(f.os2.panose10) == 10 && f.os2.version >= 5 ==> b16(w, old(bl(w))+98) == u16(f.os2.usUpperOpticalPointSize)
  ensures kept(w)
  noerr
