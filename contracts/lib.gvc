// Assumed contracts on dependencies (never proved; listed among the assumptions of every check that uses them).
package regexp
extern (*Regexp).FindStringSubmatch(re, s) (r)
    ensures @groups isnil(r) || len(r) == 1 + regroups(re)
    ensures @digits !isnil(r) ==> redigits(re, r)
extern (*Regexp).FindSubmatch(re, b) (r)
    ensures @groups isnil(r) || len(r) == 1 + regroups(re)
    ensures @digits !isnil(r) ==> redigits(re, r)
extern (*Regexp).FindStringIndex(re, s) (r)
    ensures @loc isnil(r) || len(r) == 2 && 0 <= r[0] && r[0] + reminlen(re) <= r[1] && r[1] <= len(s)
extern (*Regexp).FindIndex(re, b) (r)
    ensures @loc isnil(r) || len(r) == 2 && 0 <= r[0] && r[0] + reminlen(re) <= r[1] && r[1] <= len(b)
extern (*Regexp).FindAllStringIndex(re, s, n) (r)
    ensures @locs forall k int :: 0 <= k && k < len(r) ==> len(r[k]) == 2 && 0 <= r[k][0] && r[k][0] + reminlen(re) <= r[k][1] && r[k][1] <= len(s)
extern (*Regexp).FindAllIndex(re, b, n) (r)
    ensures @locs forall k int :: 0 <= k && k < len(r) ==> len(r[k]) == 2 && 0 <= r[k][0] && r[k][0] + reminlen(re) <= r[k][1] && r[k][1] <= len(b)
extern (*Regexp).FindAllStringSubmatch(re, s, n) (r)
    ensures @whole forall k int :: 0 <= k && k < len(r) ==> contains(s, r[k][0])
    ensures @digits forall k int :: 0 <= k && k < len(r) ==> redigits(re, r[k])
    ensures @groups forall k int :: 0 <= k && k < len(r) ==> len(r[k]) == 1 + regroups(re)
extern (*Regexp).FindAllSubmatch(re, b, n) (r)
    ensures @groups forall k int :: 0 <= k && k < len(r) ==> len(r[k]) == 1 + regroups(re)
extern (*Regexp).FindStringSubmatchIndex(re, s) (r)
    ensures @groups isnil(r) || len(r) == 2 + 2*regroups(re)
    ensures @loc !isnil(r) ==> 0 <= r[0] && r[0] + reminlen(re) <= r[1] && r[1] <= len(s)
    ensures @must !isnil(r) ==> forall k int :: 1 <= k && k <= remust(re) ==> r[0] <= r[2*k] && r[2*k] <= r[2*k+1] && r[2*k+1] <= r[1]
extern (*Regexp).FindSubmatchIndex(re, b) (r)
    ensures @groups isnil(r) || len(r) == 2 + 2*regroups(re)
    ensures @loc !isnil(r) ==> 0 <= r[0] && r[0] + reminlen(re) <= r[1] && r[1] <= len(b)
    ensures @must !isnil(r) ==> forall k int :: 1 <= k && k <= remust(re) ==> r[0] <= r[2*k] && r[2*k] <= r[2*k+1] && r[2*k+1] <= r[1]
extern (*Regexp).Split(re, s, n) (r)
    ensures @some n != 0 ==> len(r) >= 1
extern (*Regexp).MatchString(re, s) (ok)
extern (*Regexp).Match(re, b) (ok)
