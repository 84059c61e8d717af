package simrt

import (
	"github.com/gdamore/tcell/v2"
	"github.com/rivo/tview"
)

// NewScreen, when set, provides the simulated terminal.
var NewScreen func() tcell.Screen

// LastApp is the most recent application of the system under test.
var LastApp *tview.Application

// App gives an application of the system under test a simulated terminal.
func App(a *tview.Application) *tview.Application {
	LastApp = a
	if NewScreen != nil {
		a.SetScreen(NewScreen())
	}
	return a
}
