// Pruning: exactly the named tables among cmap, post and name go away.
def named(ts, x, n) = exists(k, 0, n, ts[k] == x)

func (*Font).PruneTables
  requires f.font != nil
  modifies f.cmap, f.post, f.name
  inv f.cmap == nil || f.cmap == old(f.cmap) && !named(tables, "cmap", iter)
  inv f.post == nil || f.post == old(f.post) && !named(tables, "post", iter)
  inv f.name == nil || f.name == old(f.name) && !named(tables, "name", iter)
  inv !named(tables, "cmap", iter) ==> f.cmap == old(f.cmap)
  inv !named(tables, "post", iter) ==> f.post == old(f.post)
  inv !named(tables, "name", iter) ==> f.name == old(f.name)
  ensures [C17] ok: err == nil
  ensures [C17] cmap: named(tables, "cmap", len(tables)) ==> f.cmap == nil
  ensures [C17] cmapKept: !named(tables, "cmap", len(tables)) ==> f.cmap == old(f.cmap)
  ensures [C17] post: named(tables, "post", len(tables)) ==> f.post == nil
  ensures [C17] postKept: !named(tables, "post", len(tables)) ==> f.post == old(f.post)
  ensures [C17] name: named(tables, "name", len(tables)) ==> f.name == nil
  ensures [C17] nameKept: !named(tables, "name", len(tables)) ==> f.name == old(f.name)

func (*Font).Optimize
  requires f.font != nil
  requires f.hmtx != nil && f.hhea != nil ==> len(f.hmtx.hMetrics) <= 65535
  modifies f.hmtx.hMetrics, f.hmtx.leftSideBearings, f.hhea.numberOfHMetrics
  ensures [C07] ok: err == nil
  ensures [C07] count: hasHmtx(f) ==> len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings) == old(len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings)) && len(f.hmtx.hMetrics) <= old(len(f.hmtx.hMetrics)) && (len(f.hmtx.hMetrics) > 0) == old(len(f.hmtx.hMetrics) > 0)
  ensures [C07] announced: hasHmtx(f) && old(len(f.hmtx.hMetrics)) == old(nHM(f)) ==> len(f.hmtx.hMetrics) == nHM(f)
  ensures [C07] width: hasHmtx(f) && len(f.hmtx.hMetrics) > 0 ==> forall(g, 0, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings), adv(f.hmtx, g) == old(adv(f.hmtx, g)))
  ensures [C07] bearing: hasHmtx(f) ==> forall(g, 0, len(f.hmtx.hMetrics)+len(f.hmtx.leftSideBearings), lsbOf(f.hmtx, g) == old(lsbOf(f.hmtx, g)))
