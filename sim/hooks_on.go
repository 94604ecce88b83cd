//go:build verif

package main

import "github.com/alexZaicev/go-vtd-xml/vtdxml/common"

const hooksBuilt = true

func setCache(on bool) { common.VerifCache = on }
