package scoring

import (
	"io"
	"log/slog"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var levelWeights = []map[warning.Level]uint{
	{warning.LevelRequired: 8, warning.LevelImplied: 4, warning.LevelSuggested: 2, warning.LevelAdmin: 1},
	{warning.LevelRequired: 2, warning.LevelImplied: 1},
	{warning.LevelSuggested: 3},
}

var order = []warning.Level{warning.LevelRequired, warning.LevelImplied, warning.LevelSuggested, warning.LevelAdmin}

// Warnings: the scores of handlers by the warnings they have: p = {handlers, weights, warnings, most instances}.
func Warnings(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	ws := []*warning.Warning{warning.Required()[0], warning.Implied()[0], warning.Required()[1], warning.Suggested()[0], warning.SkippingTest}[:min(p[2], 5)]
	names := []string{"a/b", "c/d", "e/f", "g/h", "i/j", "k/l", "m/n", "o/p", "q/r", "s/t"}
	if p[2] > 5 {
		// many warnings: all predefined ones
		ws = append(append(append(append([]*warning.Warning{}, warning.Required()...), warning.Implied()...), warning.Suggested()...), warning.Administrative()...)
		if p[2] < len(ws) {
			ws = ws[:p[2]]
		}
	}
	has := make([][]bool, p[0])
	var sb strings.Builder
	for h := range has {
		has[h] = make([]bool, len(ws))
		m := warning.NewWarningManager(names[h], "Test", "")
		for i, w := range ws {
			// none, one, ... and, beyond two, p[3] of them
			n := (h + i*(h+2)) % 4 % 3
			if p[0] <= 3 && p[2] <= 5 || h == 0 && i < 4 {
				n = sym.Choose("instances", min(p[3], 2)+1)
			}
			if n > 0 {
				if n == 2 {
					n = p[3]
				}
				has[h][i] = true
				for k := 0; k < n; k++ {
					m.AddWarningFnText(w, []string{"TestOne", "TestTwo"}[k%2], "", "")
				}
			}
		}
		m.ShowWarnings(&sb)
	}
	data1 := data.NewWarnings()
	sym.Assert(data1.ParseWarningData(strings.NewReader(sb.String()), "Verify", nil) == nil, "the output does not parse")
	weight := levelWeights[p[1]]
	a := axis.NewWarnings(weight, "summary")
	sym.Assert(a.Setup(nil, data1) == nil, "Setup fails")
	tags := make([]data.HandlerTag, len(has))
	for h := range tags {
		tags[h] = data.HandlerTag(names[h])
	}
	JudgeWarnings(a, tags, ws, has, weight)
	rows := a.Exhibits()[0].(*exhibit.Table).Rows()
	n := 0
	for _, lv := range order {
		if w, ok := weight[lv]; ok {
			sym.Assert(n < len(rows) && len(rows[n]) == 2 && rows[n][0] == lv.String() && rows[n][1] == strconv.Itoa(int(w)), "table of weights")
			n++
		}
	}
	sym.Assert(len(rows) == n && len(a.Exhibits()) == 1, "table of weights")
	sym.Assert(a.Name() == "Warnings" && a.Summary() == "summary", "name or summary")
	sym.Reach("end")
}

// JudgeWarnings compares the scores of an axis of warnings with those documented.
func JudgeWarnings(a score.Axis, tags []data.HandlerTag, ws []*warning.Warning, has [][]bool, weight map[warning.Level]uint) {
	var all [4]int // different warnings of a level that some handler has
	for l, lv := range order {
		for i, w := range ws {
			any := false
			for h := range has {
				any = any || has[h][i]
			}
			if w.Level == lv && any {
				all[l]++
			}
		}
	}
	for h := range has {
		tag := tags[h]
		var byData, weights, own, most float64
		for l, lv := range order {
			n := 0
			for i, w := range ws {
				if w.Level == lv && has[h][i] {
					n++
				}
			}
			v := 100.0
			if n > 0 {
				v = 100 * float64(all[l]-n) / float64(all[l])
			}
			near(a.(*axis.Warnings).ScoreForLevel(tag, lv), v, "score for a level")
			sym.Assert(a.(*axis.Warnings).CountForLevel(tag, lv) == score.Value(n), "count of a level")
			wt := float64(weight[lv])
			byData += wt * v
			weights += wt
			own += wt * float64(n)
			most += wt * float64(all[l])
		}
		byData /= weights
		near(a.ScoreForType(tag, score.ByData), byData, "score by data")
		near(a.ScoreForType(tag, score.Default), byData, "default score")
		near(a.ScoreFor(tag), byData, "score")
		bounds(a.ScoreFor(tag))
		original := 100.0
		if most > 0 {
			original = 100 * (most - own) / most
		}
		near(a.ScoreForType(tag, score.Original), original, "original score")
	}
}
