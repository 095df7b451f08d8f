SPECIFICATION TSpec
CONSTANT Page = 4096
