package cmd

import "github.com/childe/healer"

// the harness runs the tool through its root command, as main does
func init() {
	healer.VpCLI = func(args []string) error {
		rootCmd.SilenceErrors, rootCmd.SilenceUsage = true, true // printing them is cobra's business
		rootCmd.SetArgs(args)
		return rootCmd.Execute()
	}
}
