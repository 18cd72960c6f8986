// Assumed contracts on the standard library, shared by several properties.
package "lib"

extern fmt.Errorf(format, a) (err) {
  modifies nothing
  ensures err != nil
}
extern fmt.Sprintf(format, a) (s) {
  modifies nothing
}
extern errors.New(text) (err) {
  modifies nothing
  ensures err != nil
}
