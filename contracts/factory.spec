// C25: factories.
package "factory"

// every call of a creator is recorded: how many there were, on which creator, with which arguments, with which result
ghost var ncalls int
ghost var cTag int
ghost var cData int
ghost var aTag [int]int
ghost var aDat [int]int
ghost var aLen int
ghost var rTag int
ghost var rData int

iface Creater.Create(arg) (r) {
  modifies ncalls, cTag, cData, aTag, aDat, aLen, rTag, rData
  ensures ncalls == old(ncalls) + 1 && cTag == this.tag && cData == this.data
  ensures aLen == len(arg) && (forall i int {aTag[i]} :: 0 <= i && i < len(arg) ==> aTag[i] == arg[i].tag) && (forall i int {aDat[i]} :: 0 <= i && i < len(arg) ==> aDat[i] == arg[i].data)
  ensures rTag == r.tag && rData == r.data
}
def facI(f) := f != nil && f.cmap != nil && (forall k int {has(f.cmap, k)} :: has(f.cmap, k) ==> f.cmap[k].tag != 0)
def facS(f) := f != nil && f.cmap != nil && (forall k str {has(f.cmap, k)} :: has(f.cmap, k) ==> f.cmap[k].tag != 0)
def calledWith(tag, data, arg, r) := ncalls == old(ncalls) + 1 && cTag == tag && cData == data && aLen == len(arg) && (forall i int {aTag[i]} :: 0 <= i && i < len(arg) ==> aTag[i] == old(arg[i].tag)) && (forall i int {aDat[i]} :: 0 <= i && i < len(arg) ==> aDat[i] == old(arg[i].data)) && rTag == r.tag && rData == r.data

func NewFactoryI() (f) {
  prop C25
  modifies nothing
  ensures [empty] facI(f) && fresh(f) && fresh(f.cmap) && (forall k int :: !has(f.cmap, k))
}
func (me *FactoryI) AddCreater(nType, creater) (err) {
  prop C25
  requires facI(me) && creater != nil
  modifies contents(me.cmap)
  ensures [registered] err == nil && has(me.cmap, nType) && me.cmap[nType].tag == creater.tag && me.cmap[nType].data == creater.data
  ensures [others] forall k int {has(me.cmap, k)} :: k != nType ==> (has(me.cmap, k) <==> old(has(me.cmap, k))) && me.cmap[k].tag == old(me.cmap[k].tag) && me.cmap[k].data == old(me.cmap[k].data)
  ensures [valid] facI(me)
}
func (me *FactoryI) RemoveCreater(nType) (err) {
  prop C25
  requires facI(me)
  modifies contents(me.cmap)
  ensures [removed] err == nil && !has(me.cmap, nType)
  ensures [others] forall k int {has(me.cmap, k)} :: k != nType ==> (has(me.cmap, k) <==> old(has(me.cmap, k))) && (has(me.cmap, k) ==> me.cmap[k].tag == old(me.cmap[k].tag) && me.cmap[k].data == old(me.cmap[k].data))
  ensures [valid] facI(me)
}
func (me *FactoryI) Create(nType, arg) (r) {
  prop C25
  requires facI(me)
  modifies ncalls, cTag, cData, aTag, aDat, aLen, rTag, rData
  ensures [calls_the_creator] has(me.cmap, nType) ==> calledWith(me.cmap[nType].tag, me.cmap[nType].data, arg, r)
  ensures [unregistered] !has(me.cmap, nType) ==> r.tag == 0 && ncalls == old(ncalls)
}

func NewFactoryS() (f) {
  prop C25
  modifies nothing
  ensures [empty] facS(f) && fresh(f) && fresh(f.cmap) && (forall k str :: !has(f.cmap, k))
}
func (me *FactoryS) AddCreater(typename, creater) (err) {
  prop C25
  requires facS(me) && creater != nil
  modifies contents(me.cmap)
  ensures [registered] err == nil && has(me.cmap, typename) && me.cmap[typename].tag == creater.tag && me.cmap[typename].data == creater.data
  ensures [others] forall k str {has(me.cmap, k)} :: k != typename ==> (has(me.cmap, k) <==> old(has(me.cmap, k))) && me.cmap[k].tag == old(me.cmap[k].tag) && me.cmap[k].data == old(me.cmap[k].data)
  ensures [valid] facS(me)
}
func (me *FactoryS) RemoveCreater(typename) (err) {
  prop C25
  requires facS(me)
  modifies contents(me.cmap)
  ensures [removed] err == nil && !has(me.cmap, typename)
  ensures [others] forall k str {has(me.cmap, k)} :: k != typename ==> (has(me.cmap, k) <==> old(has(me.cmap, k))) && (has(me.cmap, k) ==> me.cmap[k].tag == old(me.cmap[k].tag) && me.cmap[k].data == old(me.cmap[k].data))
  ensures [valid] facS(me)
}
func (me *FactoryS) Create(typename, arg) (r) {
  prop C25
  requires facS(me)
  modifies ncalls, cTag, cData, aTag, aDat, aLen, rTag, rData
  ensures [calls_the_creator] has(me.cmap, typename) ==> calledWith(me.cmap[typename].tag, me.cmap[typename].data, arg, r)
  ensures [unregistered] !has(me.cmap, typename) ==> r.tag == 0 && ncalls == old(ncalls)
}

// the global factory: established by package initialisation, kept by every function of the package
func init() {
  prop C25
  flag init
  flag noframe
  modifies g_factory
  ensures [global] facS(g_factory) && (forall k str :: !has(g_factory.cmap, k))
}
func AddCreater(typename, creater) (err) {
  prop C25
  requires facS(g_factory) && creater != nil
  modifies contents(g_factory.cmap)
  ensures [registered] err == nil && has(g_factory.cmap, typename) && g_factory.cmap[typename].tag == creater.tag && g_factory.cmap[typename].data == creater.data
  ensures [others] forall k str {has(g_factory.cmap, k)} :: k != typename ==> (has(g_factory.cmap, k) <==> old(has(g_factory.cmap, k))) && g_factory.cmap[k].tag == old(g_factory.cmap[k].tag) && g_factory.cmap[k].data == old(g_factory.cmap[k].data)
  ensures [valid] facS(g_factory)
}
func RemoveCreater(typename) (err) {
  prop C25
  requires facS(g_factory)
  modifies contents(g_factory.cmap)
  ensures [removed] err == nil && !has(g_factory.cmap, typename)
  ensures [others] forall k str {has(g_factory.cmap, k)} :: k != typename ==> (has(g_factory.cmap, k) <==> old(has(g_factory.cmap, k))) && (has(g_factory.cmap, k) ==> g_factory.cmap[k].tag == old(g_factory.cmap[k].tag) && g_factory.cmap[k].data == old(g_factory.cmap[k].data))
  ensures [valid] facS(g_factory)
}
func Create(typename, arg) (r) {
  prop C25
  requires facS(g_factory)
  modifies ncalls, cTag, cData, aTag, aDat, aLen, rTag, rData
  ensures [calls_the_creator] has(g_factory.cmap, typename) ==> calledWith(g_factory.cmap[typename].tag, g_factory.cmap[typename].data, arg, r)
  ensures [unregistered] !has(g_factory.cmap, typename) ==> r.tag == 0 && ncalls == old(ncalls)
}
