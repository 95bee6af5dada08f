package htmlutil

import "golang.org/x/net/html"

func specNamed(a html.Attribute, namespace, name string) bool {
	return a.Namespace == namespace && a.Key == name
}

//gocv:contract C22 GetAttr
func contract_GetAttr(attrs []html.Attribute, namespace, name string, k int) {
	node := &html.Node{Attr: attrs}
	val, ok := GetAttr(node, namespace, name)
	if ok {
		ensures("the value is that of the first attribute of that name", exists(0, len(attrs), func(i int) bool {
			return specNamed(attrs[i], namespace, name) && attrs[i].Val == val && forall(0, i, func(j int) bool { return !specNamed(attrs[j], namespace, name) })
		}))
	} else {
		ensures("no attribute has that name", forall(0, len(attrs), func(i int) bool { return !specNamed(attrs[i], namespace, name) }))
	}
	v, present := GetAttr(nil, namespace, name)
	ensures("no element has no attributes", !present && v == "")
}
