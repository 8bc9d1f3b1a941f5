// Character map selection and rune lookup.
def wfCmap(f) = f.cmap != nil ==> forall(i, 0, len(f.cmap.subtableKeys), has(f.cmap.subtables, f.cmap.subtableKeys[i]) && f.cmap.subtables[f.cmap.subtableKeys[i]] != nil)
def subt(f, i) = f.cmap.subtables[f.cmap.subtableKeys[i]]
def is(f, i, p, e) = subt(f, i).platformID == p && subt(f, i).encodingID == e
def firstIs(f, i, p, e) = is(f, i, p, e) && forall(j, 0, i, !is(f, j, p, e))

func (*Font).GetCmap
  requires f.font != nil && wfCmap(f)
  inv forall(j, 0, iter, !is(f, j, platformID, encodingID))
  ensures [C13] absent: f.cmap == nil ==> ret0 == nil
  ensures [C13] first: f.cmap != nil ==> forall(i, 0, len(f.cmap.subtableKeys), firstIs(f, i, platformID, encodingID) ==> ret0 == subt(f, i).cmap)
  ensures [C13] some: ret0 != nil ==> f.cmap != nil && exists(i, 0, len(f.cmap.subtableKeys), firstIs(f, i, platformID, encodingID) && ret0 == subt(f, i).cmap)
  ensures [C13] none: f.cmap != nil && forall(j, 0, len(f.cmap.subtableKeys), !is(f, j, platformID, encodingID)) ==> ret0 == nil

def nSub(f) = ite(f.cmap == nil, 0, len(f.cmap.subtableKeys))
// what the map chosen for a platform and encoding says about rune x
def lacks(f, p, e, x) = forall(i, 0, nSub(f), firstIs(f, i, p, e) ==> !has(subt(f, i).cmap, x))
def gives(f, p, e, x, g) = forall(i, 0, nSub(f), firstIs(f, i, p, e) && has(subt(f, i).cmap, x) ==> g == subt(f, i).cmap[x])

def pick(ms, x, g) = (has(ms[0], x) ==> g == ms[0][x]) && (!has(ms[0], x) && has(ms[1], x) ==> g == ms[1][x]) && (!has(ms[0], x) && !has(ms[1], x) && has(ms[2], x) ==> g == ms[2][x]) && (!has(ms[0], x) && !has(ms[1], x) && !has(ms[2], x) && has(ms[3], x) ==> g == ms[3][x]) && (!has(ms[0], x) && !has(ms[1], x) && !has(ms[2], x) && !has(ms[3], x) ==> g == 0)

func (*Font).LookupRunes
  requires f.font != nil && wfCmap(f)
  inv len(indices) == iter
  inv forall(k, 0, iter, pick(maps, runes[k], indices[k]))
  inv index == 0 && forall(q, 0, iter, !has(maps[q], r))
  ensures [C13] length: len(ret0) == len(runes)
  ensures [C13] windows: forall(k, 0, len(runes), gives(f, 3, 1, runes[k], ret0[k]))
  ensures [C13] mac: forall(k, 0, len(runes), lacks(f, 3, 1, runes[k]) ==> gives(f, 1, 0, runes[k], ret0[k]))
  ensures [C13] unicode: forall(k, 0, len(runes), lacks(f, 3, 1, runes[k]) && lacks(f, 1, 0, runes[k]) ==> gives(f, 0, 3, runes[k], ret0[k]))
  ensures [C13] full: forall(k, 0, len(runes), lacks(f, 3, 1, runes[k]) && lacks(f, 1, 0, runes[k]) && lacks(f, 0, 3, runes[k]) ==> gives(f, 3, 10, runes[k], ret0[k]))
  ensures [C13] notdef: forall(k, 0, len(runes), lacks(f, 3, 1, runes[k]) && lacks(f, 1, 0, runes[k]) && lacks(f, 0, 3, runes[k]) && lacks(f, 3, 10, runes[k]) ==> ret0[k] == 0)
