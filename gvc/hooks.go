package main

import "go/types"

// Event is a call made on a wrapped interface value.
type Event struct {
	name string
	args []Val
}

func (e *Exec) event(st *State, name string, args []Val) {}

// trees
func (e *Exec) seedTrees(st *State, env *Env)                                            {}
func (e *Exec) exitTrees(c *Contract, env *Env, st *State, res []Val)                    {}
func (e *Exec) consumeTrees(st *State, c *Contract, env *Env, n string) interface{}      { return nil }
func (e *Exec) produceTrees(st *State, c *Contract, env *Env, tc interface{}, res []Val) {}
func (e *Exec) treeOf(st *State, v SV) *Term                                             { specFail("tree()"); return nil }
func (e *Exec) chunkLoad(st *State, p *PtrV) Val                                         { panic(unsupported("chunk")) }
func (e *Exec) chunkStore(st *State, p *PtrV, v Val)                                     { panic(unsupported("chunk")) }
func (e *Exec) chunkDiff(a, b *State, m map[int]bool) bool                               { return false }
func (e *Exec) havocChunks(st *State, m map[int]bool)                                    {}

var _ types.Type
